"""The fields of the code, and small ones defined on top of it."""

import core  # noqa: F401
from vdaf_poc.field import Field, Field64, Field96, Field128, Field255, NttField


def small(p, size, g, log):
    class Small(NttField):
        MODULUS = p
        ENCODED_SIZE = size
        GEN_ORDER = 1 << log

        @classmethod
        def gen(cls):
            return cls(g)
    Small.__name__ = 'F%d' % p
    return Small


# Parameters as in spec/Fields.tla.
FIELDS = {
    'F5': small(5, 1, 2, 2),
    'F13': small(13, 1, 5, 2),
    'F17': small(17, 1, 3, 4),
    'F97': small(97, 1, 28, 5),
    'F193': small(193, 1, 11, 6),
    'F257': small(257, 2, 3, 8),
    'F7681': small(7681, 2, 62, 9),
    'F12289': small(12289, 2, 41, 12),
    'F40961': small(40961, 2, 243, 13),
    'F64': Field64,
    'F96': Field96,
    'F128': Field128,
    'F255': Field255,
}
SMALL = ['F5', 'F13', 'F17', 'F97', 'F193', 'F257', 'F7681', 'F12289', 'F40961']
BIG = ['F64', 'F96', 'F128', 'F255']
NTT = [n for n in FIELDS if n != 'F255']

# The modules' own parameters, for building inputs without asking the code.
PRIME = {
    'F5': (5, 1, 2), 'F13': (13, 1, 2), 'F17': (17, 1, 4), 'F97': (97, 1, 5),
    'F193': (193, 1, 6), 'F257': (257, 2, 8), 'F7681': (7681, 2, 9),
    'F12289': (12289, 2, 12), 'F40961': (40961, 2, 13),
    'F64': (2**32 * 4294967295 + 1, 8, 32),
    'F96': (2**64 * 4294966555 + 1, 12, 64),
    'F128': (2**66 * 4611686018427387897 + 1, 16, 66),
    'F255': (2**255 - 19, 32, 0),
}


def edges(name):
    (p, size, _) = PRIME[name]
    c = {0, 1, 2, p - 1, p - 2, p // 2, p // 2 + 1, 255 % p, 256 % p}
    for k in range(8, 8 * size + 1, 8):
        for d in (-1, 0, 1):
            c.add((2**k + d) % p)
    for k in (31, 32, 33, 63, 64, 65):
        c.add(2**k % p)
        c.add((2**k - 1) % p)
    return sorted(c)
