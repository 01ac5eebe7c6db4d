"""Byte-exact executions of Prio3 (P03)."""

from cat3 import *


def honest(rec, V, ctx, param, n):
    c = Calls(rec, [V])
    rng = rec.rng
    c.whole(rng.randbytes(32), ctx, param, [rmeas(rng, V) for _ in range(n)])


def special(rec, V, ctx):
    """Nonces, verification keys and randomness of special forms."""
    c = Calls(rec, [V])
    rng = rec.rng
    n = shares_of(V)
    for nonce in odds(rng, 16):
        c.whole(rng.randbytes(32), ctx, None, [rmeas(rng, V)], nonces=[nonce])
    for key in odds(rng, 32):
        c.whole(key, ctx, None, [rmeas(rng, V)])
    for rand in odds(rng, rand_size(V))[:5]:
        c.whole(rng.randbytes(32), ctx, None, [rmeas(rng, V)], rands=[rand])
    # every seed in turn
    for k in range(rand_size(V) // 32 if n < 4 else 0):
        for s in (bytes(32), rng.randbytes(31) + b'\0', b'\0' + rng.randbytes(31)):
            r = rng.randbytes(rand_size(V))
            c.whole(rng.randbytes(32), ctx, None, [rmeas(rng, V)], rands=[r[:32 * k] + s + r[32 * k + 32:]])


def altered(rec, V):
    """Byte-exact also on altered messages: what each step answers to them."""
    c = Calls(rec, [V])
    rng = rec.rng
    n = shares_of(V)
    key, ctx, nonce = rng.randbytes(32), rng.randbytes(9), rng.randbytes(16)
    (pub, inps) = c.shard(ctx, rmeas(rng, V), nonce, rng.randbytes(rand_size(V)))

    def alt(b):
        if not b:
            return b
        k = rng.randrange(len(b))
        return b[:k] + bytes([b[k] ^ (1 << rng.randrange(8))]) + b[k + 1:]
    st = [c.init(key, ctx, i, b'', nonce, pub, inps[i]) for i in range(n)]
    c.init(key, ctx, 0, b'', nonce, pub, alt(inps[0]))
    c.init(key, ctx, 1, b'', nonce, pub, alt(inps[1]))
    c.init(key, ctx, n - 1, b'', nonce, alt(pub), inps[n - 1])
    c.init(alt(key), ctx, 0, b'', nonce, pub, inps[0])
    c.init(key, ctx, 0, b'', alt(nonce), pub, inps[0])
    c.init(key, ctx + b'x', 1, b'', nonce, pub, inps[1])
    if None in st:
        return
    msg = c.combine(ctx, b'', st[0][0], [s[1] for s in st])
    c.combine(ctx, b'', st[0][0], [alt(st[0][1])] + [s[1] for s in st[1:]])
    c.combine(ctx + b'y', b'', st[0][0], [s[1] for s in st])
    if msg is None:
        return
    for s in st:
        c.next(ctx, s[0], msg)
        c.next(ctx, s[0], alt(msg))


def jobs_p03(tier, rng):
    deep = tier == 'thorough'
    jobs = []

    def add(V, n=1, ctx=None):
        jobs.append(('%d-%s-%d-%d' % (len(jobs), V['circuit']['name'], V['shares'], V['proofs']), honest,
                     dict(V=V, ctx=rng.randbytes(rng.choice(LENS)) if ctx is None else ctx, param=None, n=n)))
    cs = circuits(rng, tier)
    for c in cs:
        if meas_len(c) <= (70 if not deep else 1000):
            for sh in ((rng.choice((2, 2, 3, 4)),) if not deep else (2, 3, 5, 9)):
                add(prio3(sh, c))
    for c in LARGE:
        add(prio3(rng.choice((2, 2, 3)), c))
    for V in multi(rng):
        add(V, 2)
        add(dict(V, shares=rng.choice((2, 3, 6))))
    for n in (64, 127, 128, 129, 255) + ((16, 100, 200, 254) if deep else ()):
        add(prio3(n, circ('Count', 'F64')))
        add(prio3(n, circ('Histogram', 'F128', 2, 1)))
    add(prio3(200, circ('Sum', 'F64', mx=3)))
    add(prio3(130, circ('SumVec', 'F128', 2, 2, 1)))
    add(prio3(140, circ('Multihot', 'F128', 2, 2, 1)))
    for k in (16, 127, 128, 129, 200, 255) + ((64, 100, 254) if deep else ()):
        add(prio3(2, circ('SumVec', 'F64', 1, 1, 1), k))
        add(prio3(2, circ('Count', 'F64'), k))
    add(prio3(3, circ('Poly', 'F96', 2, poly=(0, 2, -3, 1)), 130))
    for ident in (0, 1, 0x100, 0x12345678, 0x80000001):
        add(prio3(2, circ('Histogram', 'F128', 3, 2), ident=ident))
        add(prio3(2, circ('Sum', 'F64', mx=6), ident=ident))
    # gadgets with many calls, and of various degrees
    for (ln, poly) in ((1, (0, 1)), (2, (0, -1, 1)), (3, (0, 2, -3, 1)), (7, (0, -1, 1)), (8, (0, -1, 1)), (5, (0, -6, 11, -6, 1)),
                       (4, (0, 24, -50, 35, -10, 1))):
        for f in ('F64', 'F96', 'F128'):
            add(prio3(2, circ('Poly', f, ln, poly=poly)))
    for (ln, ch) in ((4, 1), (5, 3), (9, 4), (16, 5)):
        add(prio3(3, circ('PolySum', 'F128', ln, ch, poly=(0, -1, 1))))
    for ln in (1, 2, 3, 4, 7):
        add(prio3(2, circ('Chain', rng.choice(('F64', 'F96', 'F128')), ln, poly=(0, -1, 0, 1))))
    for c in SMALLC:
        add(prio3(2, c), ctx=rng.randbytes(rng.choice((65526, 65527, 4000))))
        add(prio3(2, c), n=8)
    for (i, V) in enumerate([prio3(2, c) for c in SMALLC] + [prio3(3, SMALLC[0]), prio3(3, SMALLC[4])] + multi(rng)[:2]):
        for (j, ctx) in enumerate((b'', b'\0', b'a\0') if deep else (b'a\0',)):
            jobs.append(('special%d-%d' % (i, j), special, dict(V=V, ctx=ctx)))
    for (i, V) in enumerate([prio3(n, c) for c in SMALLC for n in (2, 3)] + multi(rng)):
        for r in range(1 if not deep else 8):
            jobs.append(('alt%d-%d' % (i, r), altered, dict(V=V)))
    return jobs
