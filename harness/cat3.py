"""Catalogues of instances and contexts."""

from vd import *

LENS = [0, 1, 2, 7, 8, 15, 16, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 160, 255, 256, 257, 300, 511, 512, 1000]


def contexts(rng, n):
    """Contexts of many lengths."""
    out = [b'', b'\0', b'some application']
    while len(out) < n:
        out.append(rng.randbytes(rng.choice(LENS)))
    rng.shuffle(out)
    return out[:n]


def ctx_pairs(rng, deep=False):
    """Pairs of contexts that differ in little."""
    lens = LENS + ([4096, 20000, 65527] if deep else [65527])
    pairs = []
    for n in lens:
        c = rng.randbytes(n)
        if n:
            pairs.append((c, c[:-1] + bytes([c[-1] ^ (1 << rng.randrange(8))])))
            pairs.append((c, bytes([c[0] ^ (1 << rng.randrange(8))]) + c[1:]))
            k = rng.randrange(n)
            pairs.append((c, c[:k] + bytes([c[k] ^ 0x80]) + c[k + 1:]))
            pairs.append((c, c[:-1]))
            pairs.append((c, c[1:]))
            if n > 1 and c != c[::-1]:
                pairs.append((c, c[::-1]))
        if n < 65527:
            pairs.append((c, c + b'\0'))
            pairs.append((b'\0' + c, c))
            pairs.append((c, c + b' '))
    return pairs


BOUNDS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257,
          1000, 1023, 1024, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**53, 2**62, 2**63 - 1]


def circuits(rng, tier):
    """Circuits over the fields the variants use, at and around their
    limits."""
    cs = [circ('Count', 'F64')]
    for b in BOUNDS:
        cs.append(circ('Sum', 'F64', mx=b))
    for (ln, b, ch) in [(1, 1, 1), (1, 1, 2), (1, 1, 5), (1, 2, 1), (1, 255, 8), (1, 255, 9), (1, 255, 100), (2, 3, 1), (2, 3, 2), (2, 3, 3),
                        (2, 3, 4), (2, 3, 5), (3, 5, 2), (3, 7, 4), (4, 100, 7), (5, 1, 2), (5, 4, 3), (7, 8, 5), (10, 16, 3),
                        (10, 1, 10), (10, 1, 11), (16, 1, 4), (17, 1, 4), (3, 2**64, 13), (2, 2**100 + 7, 20), (1, 2**126, 30),
                        (20, 9, 9), (31, 1, 1), (33, 1, 2), (64, 1, 8), (100, 1, 10)]:
        cs.append(circ('SumVec', 'F128', ln, ch, b))
    for (ln, ch) in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (4, 2), (4, 3), (5, 2), (5, 3), (7, 3), (8, 3), (10, 3),
                     (10, 20), (11, 3), (15, 4), (16, 4), (17, 4), (31, 5), (33, 1), (100, 10), (100, 99)]:
        cs.append(circ('Histogram', 'F128', ln, ch))
    for (ln, w, ch) in [(1, 1, 1), (1, 1, 2), (2, 1, 1), (2, 2, 2), (3, 1, 2), (3, 2, 2), (3, 3, 2), (4, 1, 3), (4, 2, 3), (4, 3, 5), (4, 4, 7),
                        (5, 3, 8), (5, 5, 3), (6, 4, 9), (7, 5, 3), (8, 8, 4), (10, 3, 4), (10, 7, 4), (12, 9, 5), (20, 5, 4), (20, 20, 7)]:
        cs.append(circ('Multihot', 'F128', ln, ch, w))
    return cs


# Lengths, chunks, bounds and weights around 64, 128 and 256.
LARGE = [
    circ('SumVec', 'F128', 70, 70, 1),
    circ('SumVec', 'F128', 130, 129, 1),
    circ('SumVec', 'F128', 257, 16, 1),
    circ('SumVec', 'F128', 300, 300, 1),
    circ('SumVec', 'F128', 90, 33, 9),
    circ('SumVec', 'F64', 20, 65, 2**13 - 3),
    circ('Histogram', 'F128', 65, 65),
    circ('Histogram', 'F128', 257, 17),
    circ('Histogram', 'F128', 300, 257),
    circ('Histogram', 'F64', 530, 40),
    circ('Multihot', 'F128', 65, 80, 64),
    circ('Multihot', 'F128', 130, 130, 1),
    circ('Multihot', 'F128', 260, 23, 257),
    circ('Multihot', 'F96', 300, 310, 128),
]


def borders(n, *more):
    """Positions of 0..n-1 around powers of two, the ends, and more."""
    ks = {0, 1, n - 2, n - 1}
    for b in (8, 16, 32, 64, 128, 256, 512, 1024) + more:
        ks |= {b - 1, b, b + 1}
    return sorted(k for k in ks if 0 <= k < n)


SMALLC = [
    circ('Count', 'F64'),
    circ('Sum', 'F64', mx=1),
    circ('Sum', 'F64', mx=2),
    circ('Sum', 'F64', mx=100),
    circ('SumVec', 'F128', 2, 2, 3),
    circ('SumVec', 'F128', 3, 5, 2),
    circ('SumVec', 'F128', 1, 1, 1),
    circ('Histogram', 'F128', 4, 2),
    circ('Histogram', 'F128', 3, 4),
    circ('Multihot', 'F128', 4, 3, 2),
    circ('Multihot', 'F128', 3, 2, 3),
]


def multi(rng):
    """Multiproof and generic instances."""
    return [
        prio3(2, circ('SumVec', 'F64', 2, 2, 3), 2),
        prio3(2, circ('SumVec', 'F64', 3, 2, 5), 3),
        prio3(3, circ('SumVec', 'F64', 2, 1, 2), 5),
        prio3(2, circ('SumVec', 'F96', 2, 3, 3), 2),
        prio3(2, circ('SumVec', 'F128', 2, 2, 3), 2),
        prio3(2, circ('Poly', 'F64', 3, poly=(0, 2, -3, 1)), 2),
        prio3(3, circ('PolySum', 'F96', 5, 2, poly=(0, -1, 1)), 1),
        prio3(2, circ('Chain', 'F128', 2, poly=(0, -1, 0, 1)), 2),
        prio3(2, circ('Count', 'F128'), 3),
        prio3(2, circ('Sum', 'F96', mx=12), 2),
        prio3(2, circ('Histogram', 'F64', 5, 2), 2),
        prio3(2, circ('Multihot', 'F96', 4, 2, 3), 2),
    ] + [prio3(rng.choice((2, 3, 5)), rdag(rng, f, 3, (1, 2, 3, 4, 5)), rng.choice((1, 2))) for f in ('F64', 'F64', 'F96', 'F128')]
