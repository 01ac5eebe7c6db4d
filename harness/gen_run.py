"""Whole executions: P01, P02, P04, P12, P15, P16."""

from cat3 import *
from scn import *


##
# P01
#

def batch(rec, V, n, ctx):
    rng = rec.rng
    ideal(rec, V, rng.randbytes(32), ctx, None, [rmeas(rng, V) for _ in range(n)])


def batch_all(rec, V, ctx):
    """Every measurement once (types with few values)."""
    rng = rec.rng
    c = V['circuit']
    ms = {'Count': [0, 1], 'Sum': range(cmax(c) + 1), 'Histogram': range(c['length'])}[c['name']]
    ideal(rec, V, rng.randbytes(32), ctx, None, list(ms))


def jobs_p01(tier, rng):
    deep = tier == 'thorough'
    jobs = []
    cs = circuits(rng, tier)
    ctxs = contexts(rng, 60)

    def add(V, n, tag=''):
        jobs.append(('batch%d%s' % (len(jobs), tag), batch, dict(V=V, n=n, ctx=rng.choice(ctxs))))
    for c in cs:
        for shares in ([2, 3, rng.choice((4, 5, 6, 7, 8))] if not deep else [2, 3, 4, 5, 7, 8, 9, 16, 17]):
            big = meas_len(c) > 60
            add(prio3(shares, c), (2 if big else rng.choice((1, 2, 4, 6))) * (2 if deep else 1))
    for V in multi(rng):
        for shares in (2, 3, 5):
            add(dict(V, shares=shares), 3)
    # many shares and proofs
    for n in (16, 31, 100, 127, 128, 129, 200, 254, 255):
        add(prio3(n, circ('Count', 'F64')), 2, '-many')
        add(prio3(n, circ('Histogram', 'F128', 3, 2)), 1, '-many')
    add(prio3(255, circ('Sum', 'F64', mx=5)), 1)
    add(prio3(128, circ('SumVec', 'F128', 2, 2, 2)), 1)
    add(prio3(200, circ('Multihot', 'F128', 3, 2, 2)), 1)
    for k in (4, 10, 16, 100, 127, 128, 129, 200, 254, 255):
        add(prio3(2, circ('SumVec', 'F64', 1, 1, 1), k), 1, '-proofs')
    add(prio3(3, circ('SumVec', 'F64', 3, 2, 3), 20), 2)
    for c in LARGE:
        add(prio3(rng.choice((2, 3)), c), 2, '-large')
    # exhaustive small types
    for b in ([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 15, 16] + (list(range(17, 70)) if deep else [])):
        jobs.append(('all-sum%d' % b, batch_all, dict(V=prio3(2, circ('Sum', 'F64', mx=b)), ctx=b'x')))
    for (ln, ch) in ((1, 1), (3, 2), (6, 4), (9, 3)):
        jobs.append(('all-hist%d-%d' % (ln, ch), batch_all, dict(V=prio3(3, circ('Histogram', 'F128', ln, ch)), ctx=b'')))
    jobs.append(('all-count', batch_all, dict(V=prio3(2, circ('Count', 'F64')), ctx=b'')))
    # empty and longer batches, long contexts
    for c in SMALLC[:: (1 if deep else 2)]:
        add(prio3(2, c), 0, '-empty')
        add(prio3(2, c), 40 if not deep else 200, '-long')
        jobs.append(('ctx-%d' % len(jobs), batch, dict(V=prio3(2, c), n=1, ctx=rng.randbytes(65527))))
    for (i, (c, n)) in enumerate(((circ('Count', 'F64'), 300), (circ('Histogram', 'F128', 2, 1), 260), (circ('Sum', 'F64', mx=2), 257), (circ('SumVec', 'F128', 1, 1, 1), 300))):
        add(prio3(2, c), n if not deep else 1100, '-batch')
    # streams with many samples that are rejected
    for c in SMALLC + LARGE[:3]:
        for n in (2, 3):
            add(rejecting(prio3(n, c)), 3, '-rej')
    for V in multi(rng):
        add(rejecting(V), 2, '-rej')
    # random parameters
    for _ in range(60 if not deep else 1500):
        n = rng.choice(('Sum', 'SumVec', 'Histogram', 'Multihot'))
        if n == 'Sum':
            c = circ('Sum', 'F64', mx=max(1, rng.getrandbits(rng.randint(1, 63))))
        elif n == 'SumVec':
            ln = rng.randint(1, 6)
            c = circ('SumVec', 'F128', ln, rng.randint(1, 3 * ln + 2), max(1, rng.getrandbits(rng.randint(1, 8))))
        elif n == 'Histogram':
            ln = rng.randint(1, 20)
            c = circ('Histogram', 'F128', ln, rng.randint(1, ln + 2))
        else:
            ln = rng.randint(1, 12)
            c = circ('Multihot', 'F128', ln, rng.randint(1, ln + 5), rng.randint(1, ln))
        add(prio3(rng.choice((2, 2, 3, 4, 6)), c), rng.randint(1, 4), '-r')
    return jobs


##
# P02
#

def put_el(V, i, val):
    """An edit's data: value val as a field element of the instance."""
    return int(val).to_bytes(fsize(V['circuit']['field']), 'little')


def regions(V, inst):
    """Named byte regions of the messages: (at, who, name, start, element
    size, count)."""
    c = V['circuit']
    s = fsize(c['field'])
    jn = rand_size(V) > 32 * V['shares']
    ml = meas_len(c)
    pl = inst.flp.PROOF_LEN * V['proofs']
    vl = inst.flp.VERIFIER_LEN * V['proofs']
    out = [('input', 1, 'leader measurement', 0, s, ml), ('input', 1, 'leader proof', ml * s, s, pl)]
    if jn:
        out.append(('input', 1, 'leader blind', (ml + pl) * s, 32, 1))
    for h in range(2, V['shares'] + 1):
        out.append(('input', h, 'helper seed', 0, 32, 1))
        if jn:
            out.append(('input', h, 'helper blind', 32, 32, 1))
    if jn:
        out.append(('public', 0, 'public share of all', 0, 32, V['shares']))
        for h in range(1, V['shares'] + 1):
            out.append(('public', h, 'public share of one', 0, 32, V['shares']))
    for h in range(1, V['shares'] + 1):
        out.append(('share', h, 'verifier', 0, s, vl))
        if jn:
            out.append(('share', h, 'joint randomness part', vl * s, 32, 1))
    if jn:
        out.append(('msg', 0, 'message of all', 0, 32, 1))
        for h in range(1, V['shares'] + 1):
            out.append(('msg', h, 'message of one', 0, 32, 1))
    return out


def tamper(rec, V, per_region, alsohonest=True):
    """Alter each region of each message in turn."""
    S = Scenarios(rec, [V])
    rng = rec.rng
    n = V['shares']
    F = PRIME[V['circuit']['field']][0]
    s = fsize(V['circuit']['field'])
    key, ctx = rng.randbytes(32), rng.randbytes(7)

    def base():
        return honest_sc(V, rng, rmeas(rng, V), key=key, ctx=ctx)
    other = {}
    S.run(base(), 'honest', other)
    for (at, who, name, start, size, count) in regions(V, S.insts[0]):
        picks = range(count) if count <= per_region else sorted(rng.sample(range(count), per_region))
        for k in picks:
            sc = base()
            off = start + k * size
            pos = off + (rng.randrange(size) if size == 32 else rng.choice((0, rng.randrange(size), size - 1)))
            sc['edits'] = [edit(at, 'xor', who, pos=pos, val=rng.choice((1, 0x80, rng.randint(1, 255))))]
            S.run(sc, '%s altered at byte %d' % (name, pos))
        k = rng.randrange(count)
        off = start + k * size
        sc = base()
        sc['edits'] = [edit(at, 'put', who, pos=off, data=bytes(size))]
        S.run(sc, name + ' zeroed')
        if size == s and 'blind' not in name and at in ('input', 'share') and 'seed' not in name:
            sc = base()
            sc['edits'] = [edit(at, 'put', who, pos=off, data=F.to_bytes(size, 'little'))]
            S.run(sc, name + ' with the modulus as an element')
            sc = base()
            sc['edits'] = [edit(at, 'put', who, pos=off, data=b'\xff' * size)]
            S.run(sc, name + ' with the largest string as an element')
        # replay of the same region from another report
        src = {'public': lambda: other['public'], 'input': lambda: other['inputs'][who - 1],
               'share': lambda: other['shares'][0][who - 1], 'msg': lambda: other['msgs'][0]}[at]()
        sc = base()
        sc['edits'] = [edit(at, 'put', who, pos=start, data=src[start:start + size * count])]
        S.run(sc, name + ' of another report')
        if len(src) != size * count:
            sc = base()
            sc['edits'] = [edit(at, 'set', who, data=src)]
            S.run(sc, name + ': message of another report')
        sc = base()
        sc['edits'] = [edit(at, 'trunc', who, pos=rng.choice((1, size)))]
        S.run(sc, name + ': message truncated')
        sc = base()
        sc['edits'] = [edit(at, 'append', who, data=bytes(rng.choice((1, size))))]
        S.run(sc, name + ': message extended')
    # numbers and order of shares
    idx = list(range(1, n + 1))
    sels = [idx[:-1], idx[1:], idx + [n], idx + [1], [1] * n, [n] * n, idx[1:] + idx[:1], [2, 1] + idx[2:], [], [1], idx + idx]
    for sel in sels:
        sc = base()
        sc['edits'] = [edit('share', 'sel', sel=sel)]
        S.run(sc, 'verifier shares %s' % sel)
    for at in ('input',):
        for sel in ([2, 1] + idx[2:], idx[:1] + ([3, 2] + idx[3:] if n > 2 else [1]), [2] * n):
            sc = base()
            sc['edits'] = [edit(at, 'sel', sel=sel)]
            S.run(sc, '%s shares %s' % (at, sel))
    sc = base()
    sc['edits'] = [edit('msg', 'set', 0, data=b'')]
    S.run(sc, 'empty message')
    jn = other['public'] != b''
    vl = S.insts[0].flp.VERIFIER_LEN * V['proofs']
    for who in [0] + idx[:4]:
        sc = base()
        sc['edits'] = [edit('msg', 'none', who)]
        S.run(sc, 'no message')
        for d in (b'', bytes(31), bytes(32), other['msgs'][0] + b'\0'):
            sc = base()
            sc['edits'] = [edit('msg', 'direct', who, data=d)]
            S.run(sc, 'message of %d bytes passed on' % len(d))
        for k in (0, 1, vl - 1, vl + 1, 2 * vl) + ((vl,) if jn else ()):
            if k != vl or jn:
                sc = base()
                sc['edits'] = [edit('share', 'direct', who, data=bytes(k * s))]
                S.run(sc, 'verifier share of %d zeros and no joint randomness part' % k)
    # what is delivered is longer or shorter than what was sent
    sc = base()
    g = {}
    S.run(sc, 'honest', g)
    if jn:
        m = g['msgs'][0]
        for who in [0] + idx[:4]:
            for d in (m + b'\0', m + bytes(32), b'\0' + m, m + m, m[:-1], m[:16], m[1:], m.rstrip(b'\0') + b'\0', m[::-1], bytes(x ^ 255 for x in m)):
                if d != m:
                    S.run(dict(sc, edits=[edit('msg', 'direct', who, data=d)]), 'the message as %d other bytes' % len(d))
    S.run(base(), 'honest after all this')


def invalid(rec, V, count):
    """A client that shards a vector that encodes nothing permitted."""
    S = Scenarios(rec, [V])
    rng = rec.rng
    c = V['circuit']
    p, s = PRIME[c['field']][0], fsize(c['field'])
    inst = S.insts[0]
    key, ctx = rng.randbytes(32), rng.randbytes(3)

    def go(vec, what):
        sc = honest_sc(V, rng, rmeas(rng, V), key=key, ctx=ctx)
        sc['client']['vec'] = [list((x % p).to_bytes(s, 'little')) for x in vec]
        S.run(sc, what)

    def good():
        return [x.int() for x in inst.flp.encode(rmeas(rng, V))]
    n = meas_len(c)
    go(good(), 'encoding of a permitted measurement')
    for k in (range(n) if n <= count else sorted(rng.sample(range(n), count))):
        for val in (2, p - 1, rng.randrange(2, p), (p + 1) // 2):
            v = good()
            v[k] = val
            go(v, 'element %d set to %d' % (k, val))
    for k in (range(n) if n <= count else sorted(rng.sample(range(n), count))):
        v = good()
        v[k] = 1 - v[k]
        go(v, 'bit %d flipped' % k)
    for what, v in (('all zero', [0] * n), ('all one', [1] * n), ('random', [rng.randrange(p) for _ in range(n)])):
        go(v, what)
    if n >= 2:
        # errors that cancel in plain sums
        for _ in range(3):
            v = good()
            (i, j) = rng.sample(range(n), 2)
            d = rng.randrange(1, p)
            v[i] = (v[i] + d) % p
            v[j] = (v[j] - d) % p
            go(v, 'cancelling errors at %d and %d' % (i, j))
        v = good()
        v[0], v[-1] = 2, p - 1
        go(v, 'two and minus one')


def many_proofs(rec, V):
    """One wrong element in the first, a middle or a late proof."""
    S = Scenarios(rec, [V])
    rng = rec.rng
    inst = S.insts[0]
    s = fsize(V['circuit']['field'])
    ml, pl, k = inst.flp.MEAS_LEN, inst.flp.PROOF_LEN, V['proofs']
    vl = inst.flp.VERIFIER_LEN
    S.run(honest_sc(V, rng, rmeas(rng, V)), 'honest')
    for q in borders(k):
        sc = honest_sc(V, rng, rmeas(rng, V))
        sc['edits'] = [edit('input', 'xor', 1, 0, pos=s * (ml + pl * q + rng.choice((0, pl - 1, rng.randrange(pl)))), val=1)]
        S.run(sc, 'proof %d of %d altered' % (q, k))
        sc = honest_sc(V, rng, rmeas(rng, V))
        sc['edits'] = [edit('share', 'xor', 1 + rng.randrange(2), 1, pos=s * (vl * q + rng.choice((0, vl - 1, rng.randrange(vl)))), val=1)]
        S.run(sc, 'verifier %d of %d altered' % (q, k))
    sc = honest_sc(V, rng, rmeas(rng, V))
    sc['client']['vec'] = [list((x % PRIME[V['circuit']['field']][0]).to_bytes(s, 'little')) for x in [2] + [0] * (ml - 1)]
    S.run(sc, 'a two')


def many_shares(rec, V, count):
    """One message of one of many aggregators altered."""
    S = Scenarios(rec, [V])
    rng = rec.rng
    n = V['shares']
    S.run(honest_sc(V, rng, rmeas(rng, V)), 'honest')
    for i in sorted({n - 1, n - 2} | set(rng.sample(borders(n), min(count, len(borders(n)))))):
        for at in ('input', 'share'):
            sc = honest_sc(V, rng, rmeas(rng, V))
            sc['edits'] = [edit(at, 'xor', i + 1, 1 if at == 'share' else 0, pos=rng.randrange(8), val=1)]
            S.run(sc, '%s of aggregator %d of %d altered' % (at, i, n))
    sc = honest_sc(V, rng, rmeas(rng, V))
    sc['edits'] = [edit('share', 'sel', 0, 1, sel=list(range(1, n)))]
    S.run(sc, 'the last share is missing')
    sc = honest_sc(V, rng, rmeas(rng, V))
    sc['edits'] = [edit('input', 'sel', sel=list(range(1, n - 1)) + [n, n - 1])]
    S.run(sc, 'the last two input shares are exchanged')


def large(rec, V, count):
    """Large vectors with one wrong element, and large messages altered."""
    S = Scenarios(rec, [V])
    rng = rec.rng
    inst = S.insts[0]
    c = V['circuit']
    p, s = PRIME[c['field']][0], fsize(c['field'])
    n = meas_len(c)
    S.run(honest_sc(V, rng, rmeas(rng, V)), 'honest')

    def some(ks):
        return ks if len(ks) <= count else sorted({ks[-1]} | set(rng.sample(ks, count - 1)))
    for k in some(borders(n, c['chunk'], c['length'])):
        v = [x.int() for x in inst.flp.encode(rmeas(rng, V))]
        v[k] = rng.choice((2, p - 1, rng.randrange(2, p)))
        sc = honest_sc(V, rng, rmeas(rng, V))
        sc['client']['vec'] = [list(x.to_bytes(s, 'little')) for x in v]
        S.run(sc, 'element %d of %d' % (k, n))
    for k in some(borders(n + inst.flp.PROOF_LEN, n)):
        sc = honest_sc(V, rng, rmeas(rng, V))
        sc['edits'] = [edit('input', 'xor', 1, 0, pos=s * k, val=rng.choice((1, 2, 4)))]
        S.run(sc, 'element %d of the input share altered' % k)
    for k in some(borders(inst.flp.VERIFIER_LEN)):
        sc = honest_sc(V, rng, rmeas(rng, V))
        sc['edits'] = [edit('share', 'xor', 1 + rng.randrange(2), 1, pos=s * k, val=1)]
        S.run(sc, 'element %d of the verifier share altered' % k)


def jobs_p02(tier, rng):
    deep = tier == 'thorough'
    jobs = []
    for k in (9, 16, 17, 18, 33, 65) + ((100, 129, 255) if deep else (255,)):
        jobs.append(('proofs%d' % k, many_proofs, dict(V=prio3(2, circ('SumVec', 'F64', 1, 1, 1), k))))
    for (i, c) in enumerate(LARGE):
        jobs.append(('large%d' % i, large, dict(V=prio3(2, c), count=3 if not deep else 40)))
    for (i, n) in enumerate((17, 33, 65, 129, 255)):
        for (j, c) in enumerate((circ('Count', 'F64'), circ('Histogram', 'F128', 2, 1))):
            jobs.append(('shares%d-%d' % (n, j), many_shares, dict(V=prio3(n, c), count=3 if not deep else 12)))
    Vs = [prio3(n, c) for c in SMALLC for n in ((2, 3) if not deep else (2, 3, 5))] + multi(rng)
    for (i, V) in enumerate(Vs):
        jobs.append(('tamper%d-%s-%d' % (i, V['circuit']['name'], V['shares']), tamper, dict(V=V, per_region=2 if not deep else 30)))
    Ws = [prio3(2, c) for c in SMALLC] + multi(rng)
    cs = circuits(rng, tier)
    Ws += [prio3(2, c) for c in (rng.sample(cs, 12) if not deep else cs) if meas_len(c) <= (40 if not deep else 400)]
    for (i, V) in enumerate(Ws):
        if V['circuit']['name'] != 'Chain':
            jobs.append(('invalid%d-%s' % (i, V['circuit']['name']), invalid, dict(V=V, count=3 if not deep else 40)))
    return jobs


##
# P04
#

def part_of(inst, V, key, ctx, i, nonce, pub, inp):
    """The joint randomness part in the verifier share of aggregator i."""
    (_, sh) = inst.verify_init(key, ctx, i, None, nonce, inst.decode_public_share(pub), inst.decode_input_share(i, inp))
    return inst.encode_verifier_share(sh)[-32:]


def joint(rec, V, n_each):
    S = Scenarios(rec, [V])
    rng = rec.rng
    n = V['shares']
    inst = S.insts[0]
    c = V['circuit']
    s, p = fsize(c['field']), PRIME[c['field']][0]
    for _ in range(n_each):
        ctx = rng.randbytes(rng.choice((0, 3, 20)))
        sc = honest_sc(V, rng, rmeas(rng, V), ctx=ctx)
        g = {}
        S.run(sc, 'honest', g)
        key, nonce = bytes(sc['aggs'][0]['key']), bytes(sc['aggs'][0]['nonce'])
        who = range(n) if n <= 4 else sorted({0, 1, n - 1, rng.randrange(n)})
        base = {i: part_of(inst, V, key, ctx, i, nonce, g['public'], g['inputs'][i]) for i in who}
        for i in who:
            rec.add('same', what='joint randomness part of the client and aggregator %d' % i,
                    a=J(base[i]), b=J(g['public'][32 * i:32 * i + 32]))
        for i in who:
            inp = g['inputs'][i]
            alts = [('nonce', ctx, bytes([nonce[0] ^ 1]) + nonce[1:], inp),
                    ('end of the nonce', ctx, nonce[:-1] + bytes([nonce[-1] ^ 0x80]), inp),
                    ('context', ctx + b'x', nonce, inp),
                    ('blind', ctx, nonce, inp[:-1] + bytes([inp[-1] ^ 1]))]
            if i == 0:
                for k in sorted(rng.sample(range(meas_len(c)), min(3, meas_len(c))) + [meas_len(c) - 1]):
                    b = bytearray(inp)
                    v = (int.from_bytes(b[k * s:k * s + s], 'little') + 1) % p
                    b[k * s:k * s + s] = v.to_bytes(s, 'little')
                    alts.append(('measurement share at %d' % k, ctx, nonce, bytes(b)))
            else:
                alts.append(('seed', ctx, nonce, bytes([inp[0] ^ 1]) + inp[1:]))
            for (what, cx, nn, ip) in alts:
                rec.add('differ', what='joint randomness part of aggregator %d: %s' % (i, what),
                        a=J(base[i]), b=J(part_of(inst, V, key, cx, i, nn, g['public'], ip)))
            # the role: the same helper share at another index
            if i > 0 and n > 2:
                j = i % (n - 1) + 1
                rec.add('differ', what='joint randomness part: index %d or %d' % (i, j),
                        a=J(base[i]), b=J(part_of(inst, V, key, ctx, j, nonce, g['public'], inp)))
        # an aggregator that sees something other than what the client committed to
        for i in who:
            for k in who:
                e = dict(sc)
                e['edits'] = [edit('public', 'xor', i + 1, pos=32 * k + rng.randrange(32), val=1 << rng.randrange(8))]
                S.run(e, 'part %d altered at aggregator %d' % (k, i))
            e = dict(sc)
            e['edits'] = [edit('msg', 'xor', i + 1, pos=rng.randrange(32), val=1 << rng.randrange(8))]
            S.run(e, 'seed in the message altered at aggregator %d' % i)
            ln = len(g['inputs'][i])
            e = dict(sc)
            e['edits'] = [edit('input', 'xor', i + 1, pos=ln - 1 - rng.randrange(32), val=1 << rng.randrange(8))]
            S.run(e, 'blind altered at aggregator %d' % i)
            e = dict(sc)
            e['edits'] = [edit('share', 'xor', i + 1, pos=len(g['shares'][0][i]) - 1 - rng.randrange(32), val=1 << rng.randrange(8))]
            S.run(e, 'part in the verifier share of aggregator %d altered' % i)
            e = dict(sc)
            e['aggs'] = [dict(a, nonce=J(rng.randbytes(16))) if q == i else a for (q, a) in enumerate(sc['aggs'])]
            S.run(e, 'another nonce at aggregator %d' % i)
            e = dict(sc)
            e['aggs'] = [dict(a, ctx=J(ctx + b'\0')) if q == i else a for (q, a) in enumerate(sc['aggs'])]
            S.run(e, 'another context at aggregator %d' % i)
            e = dict(e, comb=i + 1)
            S.run(e, 'another context at aggregator %d, which combines' % i)
            for d in (None, b'', g['msgs'][0][:-1], g['msgs'][0] + b'\0', bytes(32)):
                e = dict(sc)
                e['edits'] = [edit('msg', 'none', i + 1) if d is None else edit('msg', 'direct', i + 1, data=d)]
                S.run(e, 'message %s passed to aggregator %d' % (d, i))
        if n > 2:
            e = dict(sc)
            e['edits'] = [edit('public', 'set', 0, data=g['public'][32:64] + g['public'][:32] + g['public'][64:])]
            S.run(e, 'parts exchanged')


def joint_bytes(rec, V):
    """Every byte of seeds, parts and blinds counts."""
    S = Scenarios(rec, [V])
    rng = rec.rng
    sc = honest_sc(V, rng, rmeas(rng, V))
    g = {}
    S.run(sc, 'honest', g)
    for i in range(V['shares']):
        (ln, sh) = (len(g['inputs'][i]), len(g['shares'][0][i]))
        for k in range(32):
            for (what, where, pos) in (('seed in the message', 'msg', k), ('blind', 'input', ln - 32 + k), ('part in the verifier share', 'share', sh - 32 + k),
                                       ('part of the next aggregator', 'public', 32 * ((i + 1) % V['shares']) + k)):
                S.run(dict(sc, edits=[edit(where, 'xor', i + 1, pos=pos, val=1 << rng.randrange(8))]), 'byte %d of the %s altered at aggregator %d' % (k, what, i))


def joint_exact(rec, V, reps):
    """Every aggregator's part, and seeds of honest and odd parts."""
    rec.extra['Vs'] = [V]
    rng = rec.rng
    inst = make(V)
    n = V['shares']
    for _ in range(reps):
        key, ctx, nonce = rng.randbytes(32), rng.randbytes(rng.choice(LENS)), rng.randbytes(16)
        (p, ins) = inst.shard(ctx, rmeas(rng, V), nonce, rng.randbytes(rand_size(V)))
        shares = []
        vs = [inst.verify_init(key, ctx, i, None, nonce, p, ins[i])[1] for i in range(n)]
        honest_msg = inst.encode_verifier_message(inst.verifier_shares_to_message(ctx, None, vs))
        for i in range(n):
            box = []

            def call():
                (_, v) = inst.verify_init(key, ctx, i, None, nonce, p, ins[i])
                box.append(inst.encode_verifier_share(v))
                return box[0][-32:]
            out = res(call, J)
            rec.add('joint', op='part', v=1, ctx=J(ctx), id=i, nonce=J(nonce), input=J(inst.encode_input_share(ins[i])), out=out)
            if not box:
                return
            shares.append(box[0])

        # the own part in the public share is not looked at
        for i in (sorted({0, 1, n - 1, rng.randrange(n)}) if n > 4 else range(n)):
            for d in (b'', bytes(32), rng.randbytes(32), rng.randbytes(31), rng.randbytes(33), p[i] + b'\0', p[(i + 1) % n]):
                q = list(p)
                q[i] = d
                box = []

                def share():
                    (s, v) = inst.verify_init(key, ctx, i, None, nonce, q, ins[i])
                    box.append(s)
                    return inst.encode_verifier_share(v)
                a = res(share, J)
                rec.add('same', what='verifier share of aggregator %d with another own part in the public share' % i, a=J(shares[i]), b=a.get('val', []))
                if honest_msg is not None and box:
                    b = res(lambda: inst.verify_next(ctx, box[0], inst.decode_verifier_message(box[0], honest_msg)), lambda r: 0)
                    rec.add('same', what='acceptance by aggregator %d with another own part in the public share' % i, a=[1], b=[int(b['ok'])])

        def seed(parts):
            vs = [inst.decode_verifier_share(None, s[:-32] + q) for (s, q) in zip(shares, parts)]
            rec.add('joint', op='seed', v=1, ctx=J(ctx), parts=[J(q) for q in parts],
                    out=res(lambda: inst.encode_verifier_message(inst.verifier_shares_to_message(ctx, None, vs)), J))
        honest = [s[-32:] for s in shares]
        seed(honest)
        seed(honest[::-1])
        seed([honest[0]] * n)
        seed([bytes(32)] * n)
        seed([rng.randbytes(32) for _ in range(n)])
        for _ in range(4):
            (i, j) = rng.sample(range(n), 2)
            q = list(honest)
            q[i] = q[j]
            seed(q)
            q = list(honest)
            q[i] = bytes(32)
            seed(q)
            q = list(honest)
            q[i], q[j] = q[j], q[i]
            seed(q)


def jobs_p04(tier, rng):
    deep = tier == 'thorough'
    jobs = []
    cs = [circ('SumVec', 'F128', 2, 2, 3), circ('SumVec', 'F128', 1, 1, 1), circ('SumVec', 'F128', 5, 4, 6), circ('Histogram', 'F128', 4, 2), circ('Histogram', 'F128', 1, 1),
          circ('Multihot', 'F128', 4, 3, 2), circ('Multihot', 'F128', 3, 9, 3)]
    Vs = [prio3(n, c) for c in cs for n in ((2, 3, 4) if not deep else (2, 3, 4, 5, 6))]
    Vs += [prio3(2, circ('SumVec', 'F64', 2, 2, 3), 2), prio3(3, circ('SumVec', 'F64', 2, 1, 3), 3),
           prio3(2, circ('Chain', 'F128', 2, poly=(0, -1, 1)), 1), prio3(3, circ('Chain', 'F64', 1, poly=(0, -1, 1)), 2),
           prio3(40, circ('Histogram', 'F128', 2, 1)), prio3(130, circ('Histogram', 'F128', 2, 2)),
           prio3(255, circ('Histogram', 'F128', 1, 1))]
    Ws = [prio3(n, c) for c in cs for n in (2, 3, 5, 6, 9)]
    Ws += [prio3(n, circ('Histogram', 'F128', 3, 2)) for n in (4, 7, 8, 15, 16, 17, 33, 64, 65, 100, 127, 128, 129, 254, 255)]
    Ws += [prio3(n, circ('SumVec', 'F128', 2, 2, 2)) for n in (4, 12, 70)] + [prio3(n, circ('Multihot', 'F128', 3, 2, 2)) for n in (5, 20, 131)]
    Ws += [prio3(n, c) for n in (2, 3) for c in (circ('Histogram', 'F128', 130, 12), circ('Histogram', 'F128', 300, 17), circ('SumVec', 'F128', 140, 17, 3),
                                                 circ('SumVec', 'F128', 33, 5, 255), circ('Multihot', 'F128', 250, 20, 9), circ('Histogram', 'F128', 1100, 33))]
    Ws += [prio3(3, circ('SumVec', 'F64', 70, 11, 3), 2), prio3(4, circ('SumVec', 'F96', 2, 1, 3), 3), prio3(2, circ('SumVec', 'F64', 2, 1, 3), 130),
           prio3(5, circ('Chain', 'F64', 1, poly=(0, -1, 1)), 2)]
    for (i, V) in enumerate(Ws):
        jobs.append(('exact%d-%s-%d' % (i, V['circuit']['name'], V['shares']), joint_exact, dict(V=V, reps=1 if not deep else 5)))
    for (i, V) in enumerate([prio3(2, cs[1]), prio3(3, cs[4])]):
        jobs.append(('bytes%d' % i, joint_bytes, dict(V=V)))
    for (i, V) in enumerate(Vs):
        jobs.append(('joint%d-%s-%d' % (i, V['circuit']['name'], V['shares']), joint,
                     dict(V=V, n_each=1 if not deep or V['shares'] > 8 else 6)))
    return jobs
