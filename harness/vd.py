"""VDAF instances and recorded calls on them.

An instance is described by a record V as in spec/Vdaf.tla; the code is driven
through its public interface, and everything that crosses it is recorded in
its wire encoding."""

import core  # noqa: F401
from core import J, nat, res
from fields import FIELDS, PRIME
from vdaf_poc import flp_bbcggi19 as fb
from vdaf_poc.flp_bbcggi19 import (Count, FlpBBCGGI19, Histogram, Mul,
                                   MultihotCountVec, ParallelSum, PolyEval,
                                   Sum, SumVec, Valid)
from vdaf_poc.vdaf import Vdaf
from vdaf_poc.vdaf_ping_pong import PingPong
from vdaf_poc.vdaf_poplar1 import Poplar1
from vdaf_poc.vdaf_prio3 import (Prio3, Prio3Count, Prio3Histogram,
                                 Prio3MultihotCountVec, Prio3Sum, Prio3SumVec,
                                 Prio3SumVecWithMultiproof)
from vdaf_poc.xof import XofTurboShake128

##
# Circuits that exercise the generic proof system
#


class PolyCircuit(Valid):
    """Each input element is a root of a polynomial."""
    JOINT_RAND_LEN = 0

    def __init__(self, field, poly, length):
        self.field = field
        self.GADGETS = [PolyEval(list(poly), length)]
        self.GADGET_CALLS = [length]
        self.MEAS_LEN = self.OUTPUT_LEN = self.EVAL_OUTPUT_LEN = length

    def eval(self, meas, joint_rand, num_shares):
        self.check_valid_eval(meas, joint_rand)
        return [self.GADGETS[0].eval(self.field, [x]) for x in meas]

    def encode(self, measurement):
        return [self.field(x) for x in measurement]

    def truncate(self, meas):
        return meas

    def decode(self, agg, num_measurements):
        return [x.int() for x in agg]


class PolySumCircuit(PolyCircuit):
    """The sum of a polynomial over the input elements, in chunks."""
    EVAL_OUTPUT_LEN = 1

    def __init__(self, field, poly, length, chunk):
        self.field = field
        self.chunk = chunk
        calls = (length + chunk - 1) // chunk
        self.GADGETS = [ParallelSum(PolyEval(list(poly), calls), chunk)]
        self.GADGET_CALLS = [calls]
        self.MEAS_LEN = self.OUTPUT_LEN = length
        self.EVAL_OUTPUT_LEN = 1

    def eval(self, meas, joint_rand, num_shares):
        self.check_valid_eval(meas, joint_rand)
        pad = meas + self.field.zeros(self.chunk * self.GADGET_CALLS[0] - len(meas))
        out = self.field(0)
        for i in range(self.GADGET_CALLS[0]):
            out += self.GADGETS[0].eval(self.field, pad[i * self.chunk:(i + 1) * self.chunk])
        return [out]


class ChainCircuit(PolyCircuit):
    """Two gadgets: products of pairs, which are then fed to a polynomial."""
    JOINT_RAND_LEN = 1

    def __init__(self, field, poly, length):
        self.field = field
        self.length = length
        self.GADGETS = [Mul(), PolyEval(list(poly), length)]
        self.GADGET_CALLS = [length, length]
        self.MEAS_LEN = self.OUTPUT_LEN = 2 * length
        self.EVAL_OUTPUT_LEN = 1

    def eval(self, meas, joint_rand, num_shares):
        self.check_valid_eval(meas, joint_rand)
        out = self.field(0)
        prods = [self.GADGETS[0].eval(self.field, [meas[2 * i], meas[2 * i + 1]])
                 for i in range(self.length)]
        for i in range(self.length):
            out += self.GADGETS[1].eval(self.field, [prods[i] + joint_rand[0] * meas[i]])
        return [out]


class DagCircuit(PolyCircuit):
    """Any gadgets, called by a program on affine forms: see spec/Flp.tla."""

    def __init__(self, c):
        self.field = FIELDS[c['field']]
        self.prog = [(s['g'] - 1, [self.form(f) for f in s['ins']]) for s in c['prog']]
        self.outs = [self.form(f) for f in c['outs']]
        self.GADGET_CALLS = [sum(g == k for (g, _) in self.prog) for k in range(len(c['gadgets']))]
        self.GADGETS = [self.gadget(g, k) for (g, k) in zip(c['gadgets'], self.GADGET_CALLS)]
        self.MEAS_LEN = self.OUTPUT_LEN = c['length']
        self.JOINT_RAND_LEN = c['chunk']
        self.EVAL_OUTPUT_LEN = len(self.outs)

    def gadget(self, g, calls):
        inner = Mul() if g['kind'].endswith('mul') else PolyEval(list(g['poly']), calls)
        if g['kind'].startswith('par'):
            # nested sums make one sum
            (a, b) = g['nest']
            inner = ParallelSum(inner, a) if b == 0 else ParallelSum(ParallelSum(inner, a), b)
        return inner

    def form(self, f):
        return [(t['k'], t['i'] - 1, t['j'] - 1, self.field(int.from_bytes(bytes(t['co']), 'little'))) for t in f]

    def val(self, f, meas, jr, si, flat):
        r = self.field(0)
        for (k, i, j, co) in f:
            r += co * {'const': lambda: si, 'meas': lambda: meas[i], 'jr': lambda: jr[j] * si,
                       'jm': lambda: jr[j] * meas[i], 'out': lambda: flat[i]}[k]()
        return r

    def eval(self, meas, joint_rand, num_shares):
        self.check_valid_eval(meas, joint_rand)
        si = self.field(num_shares).inv()
        flat = []
        for (g, ins) in self.prog:
            flat.append(self.GADGETS[g].eval(self.field, [self.val(f, meas, joint_rand, si, flat) for f in ins]))
        return [self.val(f, meas, joint_rand, si, flat) for f in self.outs]


def dag(rng, field, gadgets, calls, length, jr, outs):
    """A circuit of the given gadgets (kind, polynomial, count), each called
    that often, with a measurement that it accepts."""
    (p, size, _) = PRIME[field]

    def spell(x):
        return list((x % p).to_bytes(size, 'little'))

    def term(k, i=1, j=1, co=0):
        return {'k': k, 'i': i, 'j': j, 'co': spell(co)}
    w = [rng.choice((0, 1, rng.randrange(p))) for _ in range(length)]
    zeros = [i for i in range(length) if w[i] == 0]
    order = [k for (k, n) in enumerate(calls) for _ in range(n)]
    rng.shuffle(order)
    prog, flat, loose = [], [], set()

    def form(terms, free=False):
        """A random form and its value on the measurement."""
        f, v = [], 0
        for _ in range(terms):
            co = rng.choice((1, p - 1, rng.randrange(p)))
            r = rng.random()
            used = [i for i in range(len(flat)) if free or i not in loose]
            if r < 0.1:
                f.append(term('const', co=co))
                v += co
            elif r < 0.25 and jr and zeros:
                f.append(term('jm', rng.choice(zeros) + 1, rng.randint(1, jr), co))
            elif r < 0.55 and used:
                i = rng.choice(used)
                f.append(term('out', i + 1, co=co))
                v += co * flat[i]
            elif free and jr and r < 0.65:
                f.append(term('jr', j=rng.randint(1, jr), co=co))
            else:
                i = rng.randrange(length)
                f.append(term('meas', i + 1, co=co))
                v += co * w[i]
        return (f, v % p)

    def value(g, vs):
        if g[0].endswith('mul'):
            return sum(vs[i] * vs[i + 1] for i in range(0, len(vs), 2)) % p
        return sum(k * pow(x, e, p) for x in vs for (e, k) in enumerate(g[1])) % p
    for s in order:
        g = gadgets[s]
        arity = (2 if g[0].endswith('mul') else 1) * g[2]
        # outputs of calls that see joint randomness itself are not used
        free = rng.random() < 0.15
        ins = [form(rng.choice((1, 1, 2, 3)), free) for _ in range(arity)]
        if free:
            loose.add(len(flat))
        prog.append({'g': s + 1, 'ins': [f for (f, _) in ins]})
        flat.append(value(g, [v for (_, v) in ins]))
    res_ = []
    used = [i for i in range(len(flat)) if i not in loose]
    for k in range(outs):
        (f, v) = form(rng.randint(0, 2))
        for i in used:
            if outs == 1 or i % outs == k or rng.random() < 0.2:
                co = rng.choice((1, rng.randrange(1, p)))
                f.append(term('out', i + 1, co=co))
                v += co * flat[i]
        f.append(term('const', co=-v))
        res_.append(f)

    def nest(n):
        ds = [a for a in range(1, n) if n % a == 0]
        if ds and rng.random() < 0.3:
            a = rng.choice(ds)
            return [a, n // a]
        return [n, 0]
    c = circ('Dag', field, length, jr)
    c['gadgets'] = [{'kind': k, 'poly': list(q), 'count': n, 'nest': nest(n)} for (k, q, n) in gadgets]
    c['prog'], c['outs'] = prog, res_
    c['witness'] = w
    return c


def need_log(gadgets, calls):
    """Log of the order of the roots of unity that these gadgets need."""
    need = 0
    for ((k, q, _), n) in zip(gadgets, calls):
        d = 2 if k.endswith('mul') else max(i for i in range(len(q)) if q[i])
        need = max(need, n.bit_length(), (d * ((1 << n.bit_length()) - 1)).bit_length())
    return need


def rdag(rng, field, most=4, sizes=(1, 1, 2, 3, 4, 5, 7, 8)):
    """A random circuit that fits the field."""
    (p, _, log) = PRIME[field]
    while True:
        n = rng.randint(1, most)
        gadgets = []
        for _ in range(n):
            deg = rng.choice((1, 2, 2, 3, 4, 6))
            q = [rng.randrange(-3, 4) for _ in range(deg)] + [rng.choice((1, -1, 2))] + [0] * rng.choice((0, 0, 0, 1, 3))
            k = rng.choice(('mul', 'mul', 'poly', 'poly', 'parmul', 'parpoly'))
            gadgets.append((k, q if k.endswith('poly') else [0], rng.choice((1, 2, 3, 4, 6)) if k.startswith('par') else 1))
        calls = [rng.choice(sizes) for _ in range(n)]
        if need_log(gadgets, calls) <= log and all(abs(x) < p for g in gadgets for x in g[1]):
            return dag(rng, field, gadgets, calls, rng.choice((1, 2, 3, 5, 8)), rng.choice((0, 0, 1, 2, 5)), rng.choice((1, 1, 2, 3, 5)))


def circ(name, field, length=1, chunk=1, mx=1, poly=(0,)):
    return {'name': name, 'field': field, 'length': length, 'chunk': chunk,
            'max': nat(mx), 'poly': list(poly)}


def cmax(c):
    return int.from_bytes(bytes(c['max']), 'little')


def make_circuit(c):
    F = FIELDS[c['field']]
    n = c['name']
    if n == 'Count':
        return Count(F)
    if n == 'Sum':
        return Sum(F, cmax(c))
    if n == 'SumVec':
        return SumVec(F, c['length'], cmax(c), c['chunk'])
    if n == 'Histogram':
        return Histogram(F, c['length'], c['chunk'])
    if n == 'Multihot':
        return MultihotCountVec(F, c['length'], cmax(c), c['chunk'])
    if n == 'Poly':
        return PolyCircuit(F, c['poly'], c['length'])
    if n == 'PolySum':
        return PolySumCircuit(F, c['poly'], c['length'], c['chunk'])
    if n == 'Chain':
        return ChainCircuit(F, c['poly'], c['length'])
    if n == 'Dag':
        return DagCircuit(c)
    raise core.Machinery('circuit ' + n)


def meas_len(c):
    bits = cmax(c).bit_length()
    return {'Count': 1, 'Sum': bits, 'SumVec': c['length'] * bits,
            'Histogram': c['length'], 'Multihot': c['length'] + bits,
            'Chain': 2 * c['length']}.get(c['name'], c['length'])


##
# VDAFs
#

class Generic3(Prio3):
    """Prio3 over any circuit."""
    ID = 0xFFFFFFFF
    xof = XofTurboShake128
    VERIFY_KEY_SIZE = xof.SEED_SIZE
    test_vec_name = 'Generic3'

    def __init__(self, shares, circuit, proofs):
        super().__init__(shares, FlpBBCGGI19(circuit), proofs)


class Rejecting(XofTurboShake128):
    """A stream in which samples at or above a modulus are frequent."""

    def __init__(self, seed, dst, binder):
        super().__init__(seed, dst, binder)
        self.inner = XofTurboShake128(seed, dst, binder)
        self.left = b''

    def next(self, length):
        while len(self.left) < length:
            b = self.inner.next(32)
            self.left += {0: b'\xff' * 32, 1: b'\xff' * 8 + b[8:], 2: b[:16] + b'\xff' * 16}.get(b[0] % 8, b)
        (out, self.left) = (self.left[:length], self.left[length:])
        return out


def rejecting(V):
    return dict(V, xof='rejecting')


def odd(rng, n):
    """n bytes, sometimes special ones."""
    k = rng.randrange(1, n + 1)
    return rng.choice((bytes(n), b'\xff' * n, rng.randbytes(n - k) + bytes(k), bytes(k) + rng.randbytes(n - k), rng.randbytes(n), rng.randbytes(n)))


def odds(rng, n):
    return [bytes(n), b'\xff' * n, rng.randbytes(n - 1) + b'\0', b'\0' + rng.randbytes(n - 1), rng.randbytes(n // 2) + bytes(n - n // 2), bytes(n - 1) + b'\1',
            b'\x80' + bytes(n - 1), b' ' * n]


class Toy(Vdaf):
    """A VDAF of any number of rounds whose steps are easily predicted: see
    spec/Vdaf.tla."""
    ID = 0xFFFFFFFE
    SHARES = 2
    NONCE_SIZE = 16
    RAND_SIZE = 4
    VERIFY_KEY_SIZE = 16

    def __init__(self, rounds):
        self.ROUNDS = rounds

    def shard(self, ctx, measurement, nonce, rand):
        return (None, [rand[:2], rand[2:]])

    def is_valid(self, agg_param, previous_agg_params):
        return True

    def here(self, ctx, agg_param):
        return sum(ctx) + 5 * sum(agg_param or b'')

    def share(self, state):
        return bytes([(state[0] + state[3]) % 256, state[1]]) + state[2]

    def verify_init(self, verify_key, ctx, agg_id, agg_param, nonce, public_share, input_share):
        tag = 7 * sum(verify_key) + self.here(ctx, agg_param) + 11 * sum(nonce)
        state = (1, agg_id, input_share, tag, agg_param)
        return (state, self.share(state))

    def verifier_shares_to_message(self, ctx, agg_param, verifier_shares):
        (a, b) = verifier_shares
        if a[1] != 0 or b[1] != 1 or a[0] != b[0]:
            raise ValueError('bad shares')
        return bytes([(a[0] + self.here(ctx, agg_param)) % 256]) + a[2:] + b[2:]

    def verify_next(self, ctx, verify_state, verifier_message):
        (rnd, agg_id, inp, tag, agg_param) = verify_state
        if verifier_message[0] != (rnd + tag + self.here(ctx, agg_param)) % 256 or verifier_message[1 + 2 * agg_id:3 + 2 * agg_id] != inp:
            raise ValueError('bad message')
        if rnd == self.ROUNDS:
            return inp
        verify_state = (rnd + 1, agg_id, inp, tag, agg_param)
        return (verify_state, self.share(verify_state))

    def agg_init(self, agg_param):
        return b'\0\0'

    def agg_update(self, agg_param, agg_share, out_share):
        return bytes((x + y) % 256 for (x, y) in zip(agg_share, out_share))

    def merge(self, agg_param, agg_shares):
        agg = self.agg_init(agg_param)
        for s in agg_shares:
            agg = self.agg_update(agg_param, agg, s)
        return agg

    def unshard(self, agg_param, agg_shares, num_measurements):
        return self.merge(agg_param, agg_shares)

    def encode_agg_param(self, agg_param):
        return agg_param or b''

    def decode_agg_param(self, encoded):
        if len(encoded) > 3:
            raise ValueError('agg param')
        return encoded

    def encode_public_share(self, public_share):
        return b''

    def decode_public_share(self, encoded):
        if encoded != b'':
            raise ValueError('public share')
        return None

    def sized(self, e, n):
        if len(e) != n:
            raise ValueError('length')
        return e

    def encode_input_share(self, input_share):
        return input_share

    def decode_input_share(self, agg_id, encoded):
        return self.sized(encoded, 2)

    def encode_verifier_share(self, verifier_share):
        return verifier_share

    def decode_verifier_share(self, verify_state, encoded):
        return self.sized(encoded, 4)

    def encode_verifier_message(self, verifier_message):
        return verifier_message

    def decode_verifier_message(self, verify_state, encoded):
        return self.sized(encoded, 5)

    def encode_agg_share(self, agg_share):
        return agg_share

    def decode_agg_share(self, agg_param, encoded):
        return self.sized(encoded, 2)

    def encode_out_share(self, out_share):
        return out_share

    def decode_out_share(self, agg_param, encoded):
        return self.sized(encoded, 2)

    def test_vec_set_type_param(self, _test_vec):
        return []


IDS = {'Count': 1, 'Sum': 2, 'SumVec': 3, 'Histogram': 4, 'Multihot': 5}
DEFAULT_FIELD = {'Count': 'F64', 'Sum': 'F64', 'SumVec': 'F128', 'Histogram': 'F128', 'Multihot': 'F128'}


def prio3(shares, circuit, proofs=1, generic=False, ident=None):
    """V of a Prio3 instance: one of the code's own variants where the
    parameters are theirs, a generic one otherwise."""
    n = circuit['name']
    own = n in IDS and circuit['field'] == DEFAULT_FIELD[n] and proofs == 1 and not generic and ident is None
    cls = 'own' if own else 'generic'
    i = IDS[n] if own else (0xFFFFFFFF if ident is None else ident)
    if not own and n == 'SumVec' and not generic and ident is None:
        cls = 'multiproof'
    return {'kind': 'prio3', 'cls': cls, 'id': list(i.to_bytes(4, 'big')),
            'shares': shares, 'proofs': proofs, 'circuit': circuit}


def poplar1(bits, ident=6):
    return {'kind': 'poplar1', 'id': list(ident.to_bytes(4, 'big')), 'bits': bits}


def toy(rounds):
    return {'kind': 'toy', 'rounds': rounds, 'id': [255, 255, 255, 254]}


def make(V, pingpong=False):
    if V['kind'] == 'poplar1':
        cls, args = Poplar1, (V['bits'],)
        ident = int.from_bytes(bytes(V['id']), 'big')
        if ident != 6:
            cls = type('Poplar1', (Poplar1,), {'ID': ident})
    elif V['kind'] == 'toy':
        cls, args = Toy, (V['rounds'],)
    else:
        c = V['circuit']
        F = FIELDS[c['field']]
        if V['cls'] == 'own':
            cls, args = {
                'Count': lambda: (Prio3Count, (V['shares'],)),
                'Sum': lambda: (Prio3Sum, (V['shares'], cmax(c))),
                'SumVec': lambda: (Prio3SumVec, (V['shares'], c['length'], cmax(c), c['chunk'])),
                'Histogram': lambda: (Prio3Histogram, (V['shares'], c['length'], c['chunk'])),
                'Multihot': lambda: (Prio3MultihotCountVec, (V['shares'], c['length'], cmax(c), c['chunk'])),
            }[c['name']]()
        elif V['cls'] == 'multiproof':
            cls, args = Prio3SumVecWithMultiproof, (V['shares'], F, V['proofs'], c['length'], cmax(c), c['chunk'])
        else:
            cls, args = Generic3, (V['shares'], make_circuit(c), V['proofs'])
            ident = int.from_bytes(bytes(V['id']), 'big')
            if ident != 0xFFFFFFFF:
                cls = type('Generic3', (Generic3,), {'ID': ident})
    if V.get('xof') == 'rejecting':
        cls = type(cls.__name__, (cls,), {'xof': Rejecting})
    if pingpong:
        cls = type('PP' + cls.__name__, (cls, PingPong), {})
    inst = cls(*args)
    if V.get('xof') == 'rejecting':
        inst.xof = Rejecting
    return inst


def rand_size(V):
    if V['kind'] == 'poplar1':
        return 128
    if V['kind'] == 'toy':
        return 4
    c = V['circuit']
    joint = c['name'] in ('SumVec', 'Histogram', 'Multihot', 'Chain') or c['name'] == 'Dag' and c['chunk'] > 0
    return 32 * V['shares'] * (2 if joint else 1)


def key_size(V):
    return 16 if V['kind'] == 'toy' else 32


def shares_of(V):
    return V['shares'] if V['kind'] == 'prio3' else 2


##
# Measurements
#

def rmeas(rng, V):
    """A permitted measurement of instance V (a Python value), biased to the
    limits."""
    if V['kind'] == 'toy':
        return 0
    if V['kind'] == 'poplar1':
        b = V['bits']
        if rng.random() < 0.2:
            return tuple([rng.random() < 0.5] * b)
        return tuple(rng.random() < 0.5 for _ in range(b))
    return cmeas(rng, V['circuit'])


def cmeas(rng, c):
    n, mx = c['name'], cmax(c)

    def val():
        r = rng.random()
        if r < 0.2:
            return mx
        if r < 0.35:
            return 0
        if r < 0.5:
            k = mx.bit_length() - 1
            return min(mx, max(0, (1 << k) + rng.choice((-1, 0, 1))))
        return rng.randint(0, mx)
    if n == 'Count':
        return rng.randint(0, 1)
    if n == 'Sum':
        return val()
    if n == 'SumVec':
        return [val() for _ in range(c['length'])]
    if n == 'Histogram':
        return rng.choice((0, c['length'] - 1, rng.randrange(c['length'])))
    if n == 'Multihot':
        w = rng.choice((0, min(mx, c['length']), rng.randint(0, min(mx, c['length']))))
        on = set(rng.sample(range(c['length']), w))
        return [i in on for i in range(c['length'])]
    if n == 'Dag':
        return list(c['witness'])
    if n in ('Poly', 'PolySum', 'Chain'):
        # roots of the polynomial are 0 .. degree - 1 by convention
        if n == 'Chain':
            return [0] * (2 * c['length'])
        return [rng.randrange(len(c['poly']) - 1) if n == 'Poly' else rng.choice((0, 1)) for _ in range(c['length'])]
    raise core.Machinery('measurement of ' + n)


def jmeas(V, m):
    """A measurement as the specification sees it."""
    if V['kind'] == 'poplar1':
        return [int(b) for b in m]
    if V['kind'] == 'toy':
        return []
    return cjmeas(V['circuit'], m)


def cjmeas(c, m):
    if isinstance(m, (list, tuple)):
        return [nat(x) for x in m]
    return [nat(m)]


def jresult(V, r):
    """An aggregate result as the specification sees it."""
    if isinstance(r, (list, tuple)):
        return [nat(x) for x in r]
    return [nat(r)]


def jparam(V, p):
    if V['kind'] == 'poplar1':
        (level, prefixes) = p
        return {'level': int(level), 'prefixes': [[int(b) for b in x] for x in prefixes]}
    return {'level': 0, 'prefixes': []}


def prefixes_of(rng, bits, level, n, ms=()):
    """n distinct sorted prefixes of the level, some of them of ms."""
    out = set()
    for m in ms:
        if len(out) < n and rng.random() < 0.8:
            out.add(tuple(bool(b) for b in m[:level + 1]))
    total = 1 << min(level + 1, 20)
    n = min(n, total)
    while len(out) < n:
        if level + 1 <= 20:
            v = rng.randrange(total)
            out.add(tuple(bool(v >> i & 1) for i in range(level, -1, -1)))
        else:
            out.add(tuple(rng.random() < 0.5 for _ in range(level + 1)))
    return tuple(sorted(out))


##
# Recorded calls
#

class Calls:
    """Calls on instances, recorded one event per call.  Verification states
    stay inside; they are known by handles (numbered from 1 per trace)."""

    def __init__(self, rec, Vs):
        self.rec = rec
        self.Vs = Vs
        rec.extra['Vs'] = Vs
        self.insts = [make(V) for V in Vs]
        self.states = []

    def ev(self, op, v, **kw):
        return self.rec.add('vdaf', op=op, v=v + 1, **kw)

    def hold(self, s):
        self.states.append(s)
        return len(self.states)

    def shard(self, ctx, m, nonce, rand, v=0):
        inst = self.insts[v]

        def call():
            (p, i) = inst.shard(ctx, m, nonce, rand)
            return (inst.encode_public_share(p), [inst.encode_input_share(s) for s in i])
        out = res(call, lambda r: {'public': J(r[0]), 'inputs': [J(x) for x in r[1]]})
        self.ev('shard', v, ctx=J(ctx), m=jmeas(self.Vs[v], m), nonce=J(nonce), rand=J(rand), out=out)
        if out['ok']:
            return (bytes(out['val']['public']), [bytes(x) for x in out['val']['inputs']])

    def init(self, key, ctx, agg_id, param, nonce, public, inp, v=0):
        inst = self.insts[v]
        box = []

        def call():
            (st, sh) = inst.verify_init(key, ctx, agg_id, inst.decode_agg_param(param), nonce,
                                        inst.decode_public_share(public), inst.decode_input_share(agg_id, inp))
            box.append(st)
            return inst.encode_verifier_share(sh)
        out = res(call, J)
        h = self.hold(box[0] if box else None)
        self.ev('init', v, key=J(key), ctx=J(ctx), id=agg_id, param=J(param), nonce=J(nonce),
                public=J(public), input=J(inp), out=out)
        return (h, bytes(out['val'])) if out['ok'] else None

    def combine(self, ctx, param, h, shares, v=0):
        inst = self.insts[v]
        st = self.states[h - 1]

        def call():
            return inst.encode_verifier_message(inst.verifier_shares_to_message(
                ctx, inst.decode_agg_param(param), [inst.decode_verifier_share(st, s) for s in shares]))
        out = res(call, J)
        self.ev('combine', v, ctx=J(ctx), param=J(param), h=h, shares=[J(s) for s in shares], out=out)
        return bytes(out['val']) if out['ok'] else None

    def next(self, ctx, h, msg, v=0):
        """Returns None, ('out', bytes) or (handle, share)."""
        inst = self.insts[v]
        st = self.states[h - 1]
        box = []

        def call():
            r = inst.verify_next(ctx, st, inst.decode_verifier_message(st, msg))
            if isinstance(r, tuple):
                box.append(r[0])
                return (True, inst.encode_verifier_share(r[1]))
            return (False, inst.encode_out_share(r))
        out = res(call, lambda r: {'more': r[0], 'data': J(r[1])})
        h2 = self.hold(box[0] if box else None)
        self.ev('next', v, ctx=J(ctx), h=h, msg=J(msg), out=out)
        if not out['ok']:
            return None
        if out['val']['more']:
            return (h2, bytes(out['val']['data']))
        return ('out', bytes(out['val']['data']))

    def agg_init(self, param, v=0):
        inst = self.insts[v]
        out = res(lambda: inst.encode_agg_share(inst.agg_init(inst.decode_agg_param(param))), J)
        self.ev('agginit', v, param=J(param), out=out)
        return bytes(out['val']) if out['ok'] else None

    def agg_update(self, param, agg, o, v=0):
        inst = self.insts[v]
        p = inst.decode_agg_param(param)
        out = res(lambda: inst.encode_agg_share(inst.agg_update(
            p, inst.decode_agg_share(p, agg), inst.decode_out_share(p, o))), J)
        self.ev('aggupdate', v, param=J(param), agg=J(agg), o=J(o), out=out)
        return bytes(out['val']) if out['ok'] else None

    def merge(self, param, aggs, v=0):
        inst = self.insts[v]
        p = inst.decode_agg_param(param)
        out = res(lambda: inst.encode_agg_share(inst.merge(p, [inst.decode_agg_share(p, a) for a in aggs])), J)
        self.ev('merge', v, param=J(param), aggs=[J(a) for a in aggs], out=out)
        return bytes(out['val']) if out['ok'] else None

    def unshard(self, param, aggs, num, v=0):
        inst = self.insts[v]
        p = inst.decode_agg_param(param)
        out = res(lambda: inst.unshard(p, [inst.decode_agg_share(p, a) for a in aggs], num),
                  lambda r: jresult(self.Vs[v], r))
        self.ev('unshard', v, param=J(param), aggs=[J(a) for a in aggs], num=num, out=out)
        return out

    def whole(self, key, ctx, param, ms, v=0, nonces=None, rands=None):
        """A complete honest execution."""
        V, rng = self.Vs[v], self.rec.rng
        n = shares_of(V)
        enc = self.insts[v].encode_agg_param(param)
        aggs = [self.agg_init(enc, v) for _ in range(n)]
        for (k, m) in enumerate(ms):
            nonce = nonces[k] if nonces else rng.randbytes(16)
            rand = rands[k] if rands else rng.randbytes(rand_size(V))
            rep = self.shard(ctx, m, nonce, rand, v)
            if rep is None:
                return
            st = [self.init(key, ctx, i, enc, nonce, rep[0], rep[1][i], v) for i in range(n)]
            if None in st:
                return
            while True:
                msg = self.combine(ctx, enc, st[0][0], [s[1] for s in st], v)
                if msg is None:
                    return
                st = [self.next(ctx, s[0], msg, v) for s in st]
                if None in st:
                    return
                if st[0][0] == 'out':
                    break
            aggs = [self.agg_update(enc, aggs[i], st[i][1], v) for i in range(n)]
        self.unshard(enc, aggs, len(ms), v)


# Used by callers that need the code's own default modulus sizes.
def fsize(name):
    return PRIME[name][1]


__all__ = [n for n in dir() if not n.startswith('_')]
assert fb is not None
