"""The planted bugs of seeded/ from s005 on: bugs.py [id ...] writes them."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant  # noqa: E402

PRIO3 = 'vdaf_poc/vdaf_prio3.py'
POP = 'vdaf_poc/vdaf_poplar1.py'
FLP = 'vdaf_poc/flp_bbcggi19.py'
FIELD = 'vdaf_poc/field.py'
IDPF = 'vdaf_poc/idpf_bbcggi21.py'
PP = 'vdaf_poc/vdaf_ping_pong.py'
XOF = 'vdaf_poc/xof.py'
COMMON = 'vdaf_poc/common.py'
VDAF = 'vdaf_poc/vdaf.py'
DAF = 'vdaf_poc/daf.py'

HEAD = '''
import os
from vdaf_poc.vdaf import run_vdaf
from vdaf_poc.vdaf_prio3 import *
from vdaf_poc.vdaf_poplar1 import Poplar1
from vdaf_poc.field import *
from vdaf_poc.common import *
from vdaf_poc.flp_bbcggi19 import *
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21, pack_bits, unpack_bits
from vdaf_poc.xof import *


def verify(v, key, ctx, param, nonce, pub, shares, tamper=lambda q, s: s):
    st = [v.verify_init(key, ctx, i, param, nonce, pub, shares[i]) for i in range(v.SHARES)]
    for q in range(v.ROUNDS):
        msg = v.verifier_shares_to_message(ctx, param, tamper(q, [s[1] for s in st]))
        st = [v.verify_next(ctx, s[0], msg) for s in st]
    return st


def refused(fn, *args):
    try:
        r = fn(*args)
    except Exception:
        return True
    print('accepted', str(r)[:200])
    return False

'''
BUGS = []


def bug(ident, prop, edits, demo, needs, breaks):
    BUGS.append((ident, prop, edits, HEAD + demo, needs, breaks))


bug('s005-wide-bound', 'P08', [(FLP, '        decoded += field(1 << l) * bit\n', '        decoded += field(1 << (l & 31)) * bit\n')],
    '''
v = Sum(Field64, (1 << 40) - 1)
for m in (1, 1 << 33, (1 << 40) - 1, 5 << 34):
    assert v.decode(v.truncate(v.encode(m)), 1) == m, m
''', 'A bound of 34 bits or more and a measurement with one of the high bits set.', 'The weights of high bits wrap around, so that the aggregate is not the sum.')

bug('s006-last-proof-only', 'P02', [(PRIO3, '''            if not self.flp.decide(verifier):
                raise ValueError('proof verifier check failed')
''', '''            accepted = self.flp.decide(verifier)
        if not accepted:
            raise ValueError('proof verifier check failed')
''')], '''
v = Prio3SumVecWithMultiproof(2, Field64, 3, 2, 3, 2)
n = v.flp.VERIFIER_LEN
for k in range(3):
    pub, ins = v.shard(b'', [1, 2], bytes(16), os.urandom(v.RAND_SIZE))

    def tamper(q, s):
        w = list(s[1][0])
        w[k * n] += Field64(1)
        return [s[0], (w, s[1][1])]
    assert refused(verify, v, bytes(32), b'', None, bytes(16), pub, ins, tamper)
''', 'More than one proof, and a failure in any but the last.', 'Only the decision about the last proof counts.')

bug('s007-absent-seed', 'P04', [(PRIO3, '        if joint_rand_seed != corrected_joint_rand_seed:\n', '        if joint_rand_seed and joint_rand_seed != corrected_joint_rand_seed:\n')],
    '''
v = Prio3Histogram(2, 3, 2)
pub, ins = v.shard(b'', 1, bytes(16), os.urandom(v.RAND_SIZE))
st, _ = v.verify_init(bytes(32), b'', 0, None, bytes(16), pub, ins[0])
for m in (None, b'', bytes(32)):
    assert refused(v.verify_next, b'', st, m)
''', 'A verifier message that is missing or empty although joint randomness is used.', 'The joint randomness check is skipped.')

bug('s008-index-clamp', 'P04', [(PRIO3, '            byte(agg_id) + nonce + self.flp.field.encode_vec(meas_share),\n', '            byte(min(agg_id, 3)) + nonce + self.flp.field.encode_vec(meas_share),\n')],
    '''
v = Prio3Histogram(6, 3, 2)
b, m = os.urandom(32), Field128.rand_vec(3)
parts = [v.joint_rand_part(b'', i, b, m, bytes(16)) for i in range(6)]
assert len(set(parts)) == 6
''', 'Five or more Aggregators.', 'The contributions of Aggregators 3 and up no longer depend on their index.')

bug('s009-part-prefix', 'P04', [(PRIO3, '            byte(agg_id) + nonce + self.flp.field.encode_vec(meas_share),\n', '            byte(agg_id) + nonce + self.flp.field.encode_vec(meas_share[:128]),\n')],
    '''
v = Prio3Histogram(2, 200, 20)
nonce, key = os.urandom(16), os.urandom(32)
pub, ins = v.shard(b'', 3, nonce, os.urandom(v.RAND_SIZE))
m = list(ins[0][0])
m[150] += Field128(1)
b = os.urandom(32)
assert v.joint_rand_part(b'', 0, b, m, nonce) != v.joint_rand_part(b'', 0, b, ins[0][0], nonce)
''', 'A measurement of more than 128 field elements.', 'Elements after the 128th are not bound by the joint randomness.')

bug('s011-root-first-gadget', 'P06', [(FLP, '''            p = len(g.wires[0])

            # Abort''', '''            p = len(valid.GADGETS[0].wires[0])

            # Abort''')], '''
class Two(Valid):
    GADGETS = [Mul(), PolyEval([0, -1, 1], 4)]
    GADGET_CALLS = [1, 4]
    MEAS_LEN, JOINT_RAND_LEN, OUTPUT_LEN, EVAL_OUTPUT_LEN = 5, 0, 5, 5
    field = Field64

    def encode(self, m):
        return [Field64(x) for x in m]

    def truncate(self, m):
        return m

    def decode(self, o, n):
        return o

    def eval(self, m, j, n):
        return [self.GADGETS[0].eval(self.field, [m[0], m[0]]) - m[0]] + [self.GADGETS[1].eval(self.field, [x]) for x in m[1:]]


f = FlpBBCGGI19(Two())
m = f.encode([1, 0, 1, 1, 0])
pf = f.prove(m, Field64.rand_vec(f.PROVE_RAND_LEN), [])
for i in range(8):
    q = [Field64(3)] * (f.QUERY_RAND_LEN - 1) + [Field64.nth_root(3) ** i]
    assert refused(f.query, m, pf, q, [], 1)
''', 'A circuit with two gadgets called different numbers of times, and a query point that is a root of unity for the second only.', 'The verifier message reveals a wire value.')

bug('s012-last-gadget-only', 'P07', [(FLP, '''            if g.eval(self.field, wire_checks) != gadget_check:
                return False

        assert len(verifier) == 0  # REMOVE ME
        return True
''', '''            ok = g.eval(self.field, wire_checks) == gadget_check

        assert len(verifier) == 0  # REMOVE ME
        return ok
''')], '''
class Two(Valid):
    GADGETS = [Mul(), PolyEval([0, -1, 1], 1)]
    GADGET_CALLS = [1, 1]
    MEAS_LEN, JOINT_RAND_LEN, OUTPUT_LEN, EVAL_OUTPUT_LEN = 2, 0, 2, 2
    field = Field64

    def encode(self, m):
        return [Field64(x) for x in m]

    def truncate(self, m):
        return m

    def decode(self, o, n):
        return o

    def eval(self, m, j, n):
        return [self.GADGETS[0].eval(self.field, [m[0], m[0]]) - m[0], self.GADGETS[1].eval(self.field, [m[1]])]


f = FlpBBCGGI19(Two())
m = f.encode([1, 0])
pf = f.prove(m, Field64.rand_vec(f.PROVE_RAND_LEN), [])
v = f.query(m, pf, [Field64(5), Field64(7), Field64(11), Field64(13)], [], 1)
assert f.decide(v)
v[3] += Field64(1)
assert not f.decide(v)
''', 'A circuit with more than one gadget.', 'Only the check of the last gadget counts.')

bug('s013-coefficients-repeat', 'P07', [(FLP, '''            for (r, out_elem) in zip(rand, out):
                v += r * out_elem
''', '''            for (i, out_elem) in enumerate(out):
                v += rand[i % 16] * out_elem
''')], '''
f = FlpBBCGGI19(Sum(Field64, (1 << 20) - 1))
m = Field64.zeros(20)
# outputs of positions 1 and 17 cancel: x^2 - x = 2 and = -2
s = None
for c in range(2, 200):
    # find y with y^2 - y = -(c^2 - c)
    t = Field64(c) * Field64(c) - Field64(c)
    d = Field64(1) - Field64(4) * t
    r = pow(d.int(), (Field64.MODULUS - 1) // 2, Field64.MODULUS)
    if r == 1:
        # square root by Tonelli-Shanks
        p = Field64.MODULUS
        q, e = p - 1, 0
        while q % 2 == 0:
            q //= 2
            e += 1
        z = 7
        M, C, T, R = e, pow(z, q, p), pow(d.int(), q, p), pow(d.int(), (q + 1) // 2, p)
        while T != 1:
            i, x = 0, T
            while x != 1:
                x = x * x % p
                i += 1
            b = pow(C, 1 << (M - i - 1), p)
            M, C, T, R = i, b * b % p, T * b * b % p, R * b % p
        y = (Field64(1) + Field64(R)) / Field64(2)
        assert y * y - y + t == Field64(0)
        s = (Field64(c), y)
        break
m[1], m[17] = s
pf = f.prove(m, Field64.rand_vec(f.PROVE_RAND_LEN), [])
for _ in range(5):
    v = f.query(m, pf, Field64.rand_vec(f.QUERY_RAND_LEN), [], 1)
    assert not f.decide(v)
''', 'A sum of more than 16 bits, and an invalid input whose outputs cancel.', 'Outputs 16 apart get the same coefficient, so that errors can cancel.')

bug('s014-negative-bucket', 'P08', [(FLP, '        if measurement not in range(self.length):  # REMOVE ME\n', '        if measurement >= self.length:  # REMOVE ME\n')],
    '''
assert refused(Histogram(Field128, 4, 2).encode, -1)
assert refused(Histogram(Field128, 4, 2).encode, 4)
assert not refused(Histogram(Field128, 4, 2).encode, 3)
''', 'A negative bucket index.', 'It is silently counted in another bucket.')

bug('s015-exponent-reduced', 'P09', [(FIELD, '        return self.__class__(pow(self.val, n, self.MODULUS))\n', '        return self.__class__(pow(self.val, n % (self.MODULUS - 1), self.MODULUS))\n')],
    '''
for f in (Field64, Field96, Field128, Field255):
    assert f(0) ** (f.MODULUS - 1) == f(0)
    assert f(2) ** (f.MODULUS - 1) == f(1)
''', 'Zero to the power of a multiple of p-1.', 'The result is one instead of zero.')

bug('s017-long-context', 'P12', [(VDAF, '        return format_dst(0, self.ID, usage) + ctx\n', '        return (format_dst(0, self.ID, usage) + ctx)[:255]\n')],
    '''
v = Prio3Count(2)
a, b = bytes(300) + b'a', bytes(300) + b'b'
assert v.domain_separation_tag(1, a) != v.domain_separation_tag(1, b)
pub, ins = v.shard(a, 1, bytes(16), bytes(v.RAND_SIZE))
assert refused(verify, v, bytes(32), b, None, bytes(16), pub, ins)
''', 'Application contexts longer than 247 bytes that differ only after that.', 'They are not separated.')

bug('s018-prefixes-sorted', 'P13', [(IDPF, '        for prefix in prefixes:\n            if len(prefix)', '        for prefix in sorted(prefixes):\n            if len(prefix)')],
    '''
i = IdpfBBCGGI21(1, 2)
pub, keys = i.gen((True, False), [[Field64(7)]], [Field255(9)], b'', bytes(16), os.urandom(32))
ps = ((True,), (False,))
a, b = (i.eval(j, pub, keys[j], 0, ps, b'', bytes(16)) for j in (0, 1))
assert [vec_add(x, y) for x, y in zip(a, b)] == [[Field64(7)], [Field64(0)]]
''', 'Prefixes given out of order.', 'Values are returned for other prefixes than asked.')

bug('s019-node-cache', 'P24', [(IDPF, '        self.BITS = bits\n', '        self.BITS = bits\n        self.nodes: dict = {}\n'),
    (IDPF, '''                (seed, ctrl, y) = self.eval_next(
                    seed,
                    ctrl,
                    public_share[current_level],
                    current_level,
                    bit,
                    ctx,
                    nonce,
                )
''', '''                node = (agg_id, key, prefix[:current_level + 1], nonce)
                if current_level < level and node in self.nodes:
                    (seed, ctrl) = self.nodes[node]
                    continue
                (seed, ctrl, y) = self.eval_next(
                    seed,
                    ctrl,
                    public_share[current_level],
                    current_level,
                    bit,
                    ctx,
                    nonce,
                )
                self.nodes[node] = (seed, ctrl)
''')], '''
i = IdpfBBCGGI21(1, 3)
r, n = os.urandom(32), os.urandom(16)
for alpha in ((True, False, True), (False, True, True)):
    pub, keys = i.gen(alpha, [[Field64(7)], [Field64(8)]], [Field255(9)], b'', n, r)
    for level in ((0, 1) if alpha[0] else (1,)):
        p = (alpha[:level + 1], alpha[:level] + (not alpha[level],))
        a, b = (i.eval(j, pub, keys[j], level, p, b'', n) for j in (0, 1))
        assert vec_add(a[0], b[0]) == [Field64(7 + level)], (alpha, level)
''', 'The same key and nonce with another public share or context, after a first evaluation.', 'Nodes cached from one report are used for another.')

bug('s020-rand-cycle', 'P16', [(POP, '''            verify_rand_xof.next_vec(field, len(prefixes)),
        )
''', '''            verify_rand_xof.next_vec(field, min(len(prefixes), 32)),
        )
        verify_rand = [verify_rand[i % 32] for i in range(len(prefixes))]
''')], '''
import itertools
v = Poplar1(7)
level = 5
ps = tuple(itertools.product((False, True), repeat=6))
n, k = os.urandom(16), os.urandom(32)
# a value of 1 at position i and of c, -c at others 32 apart
pub, ins = v.shard(b'', ps[3] + (False,), n, os.urandom(v.RAND_SIZE))
vals = [v.idpf.eval(j, pub, ins[j][0], level, ps, b'', n) for j in (0, 1)]
orig = v.idpf.eval


def cheat(agg_id, *args):
    out = orig(agg_id, *args)
    if agg_id == 0:
        out[5] = [out[5][0] + Field64(1), out[5][1]]
        out[37] = [out[37][0] - Field64(1), out[37][1]]
    return out


v.idpf.eval = cheat
assert refused(verify, v, k, b'', (level, ps), n, pub, ins)
''', 'More than 32 candidate prefixes.', 'Verification randomness repeats, so that a report can add to one counter what it takes from another.')

bug('s021-none-early', 'P16', [(POP, '''        (step, level, verify_mem) = verify_state

        if step == b'evaluate sketch':
            if prev_sketch is None:
                raise ValueError('expected value, got none')
            elif len(prev_sketch) != 3:
''', '''        (step, level, verify_mem) = verify_state

        if prev_sketch is None:
            return verify_mem[-(len(verify_mem) - 3 * (step == b'evaluate sketch')):]
        if step == b'evaluate sketch':
            if len(prev_sketch) != 3:
''')], '''
v = Poplar1(2)
n = os.urandom(16)
pub, ins = v.shard(b'', (True, False), n, os.urandom(v.RAND_SIZE))
st, _ = v.verify_init(bytes(32), b'', 0, (0, ((True,),)), n, pub, ins[0])
assert refused(v.verify_next, b'', st, None)
''', 'The message of the second round delivered in the first.', 'An output share is produced without the sketch having been verified.')

bug('s023-ends-sorted', 'P17', [(POP, '''        for i in range(1, len(prefixes)):
            if prefixes[i - 1] >= prefixes[i]:
                return False
''', '''        if len(set(prefixes)) != len(prefixes):
            return False
        if len(prefixes) > 1 and prefixes[0] > prefixes[-1]:
            return False
''')], '''
v = Poplar1(4)
ps = [(False, False), (False, True), (True, False)]
assert not v.is_valid((1, (ps[0], ps[2], ps[1])), []) and not v.is_valid((1, (ps[1], ps[0], ps[2])), [])
assert v.is_valid((1, tuple(ps)), [])
''', 'Three or more prefixes, out of order in the middle.', 'They are admitted.')

bug('s024-merge-in-place', 'P18', [(POP, '''        agg = cast(list[Field], field.zeros(len(prefixes)))
        for agg_share in agg_shares:
            agg = vec_add(agg, cast(list[Field], agg_share))
''', '''        if len(agg_shares) == 0:
            return field.zeros(len(prefixes))
        agg = cast(list[Field], agg_shares[0])
        for agg_share in agg_shares[1:]:
            for (i, x) in enumerate(cast(list[Field], agg_share)):
                agg[i] += x
''')], '''
v = Poplar1(2)
p = (0, ((False,), (True,)))
a, b = [Field64(1), Field64(2)], [Field64(3), Field64(4)]
assert v.merge(p, [a, b]) == v.merge(p, [a, b]) and a == [Field64(1), Field64(2)]
''', 'An aggregate share that is used again after merging.', 'Merging modifies the first operand.')

bug('s025-order-by-round', 'P19', [(PP, '                if is_leader:\n                    verifier_shares.reverse()\n', '                if is_leader and verify_round < 1:\n                    verifier_shares.reverse()\n')],
    '''
from vdaf_poc.vdaf_ping_pong import PingPong, Continued, Finished, FinishedWithOutbound


class V(PingPong):
    """Shares are combined by position."""
    ROUNDS, SHARES = 4, 2

    def verify_init(self, k, ctx, i, p, n, pub, share):
        return ((i, 0), bytes([i, 0]))

    def verify_next(self, ctx, st, msg):
        (i, r) = st
        assert msg == bytes([0, r, 1, r])
        return [Field64(i)] if r == 3 else ((i, r + 1), bytes([i, r + 1]))

    def verifier_shares_to_message(self, ctx, p, shares):
        return b''.join(shares)

    for _n in 'agg_param public_share agg_share out_share verifier_share verifier_message input_share'.split():
        exec('def encode_%s(self, x): return x' % _n)
        exec('def decode_%s(self, *a): return a[-1]' % _n)
    shard = is_valid = agg_init = agg_update = merge = unshard = None


v = V()
l = v.ping_pong_leader_init(b'', b'', b'', b'', b'', b'')
h = v.ping_pong_helper_init(b'', b'', b'', b'', b'', b'', l.outbound)
for _ in range(4):
    l = v.ping_pong_leader_continued(b'', b'', l, h.outbound)
    assert isinstance(l, (Continued, Finished, FinishedWithOutbound)), l
    if not isinstance(l, Continued):
        break
    h = v.ping_pong_helper_continued(b'', b'', h, l.outbound)
    assert isinstance(h, (Continued, Finished, FinishedWithOutbound)), h
''', 'Four or more rounds and shares whose order matters.', 'The Leader combines the shares in the wrong order in later rounds.')

bug('s026-finish-any', 'P20', [(PP, '''            elif verify_round+1 == self.ROUNDS and \\
                    inbound_type == 2:  # finish
''', '''            elif verify_round+1 == self.ROUNDS:
                # finish
''')], '''
from vdaf_poc.vdaf_ping_pong import *
from vdaf_poc import vdaf_ping_pong as m


class V(Prio3Count, PingPong):
    pass


v = V(2)
pub, ins = v.shard(b'', 1, bytes(16), bytes(v.RAND_SIZE))
e = [v.encode_input_share(x) for x in ins]
l = v.ping_pong_leader_init(bytes(32), b'', b'', bytes(16), b'', e[0])
assert isinstance(v.ping_pong_leader_continued(b'', b'', l, m.encode(2, b'')), Finished)
assert isinstance(v.ping_pong_leader_continued(b'', b'', l, m.encode(1, b'', b'zzz')), Rejected)
''', 'A continue message in the last round.', 'It is taken for a finish message.')

bug('s027-narrow-except', 'P20', [(PP, '''                return Rejected()

            encoded_verifier_message = inbound_items[0]
''', '''                return Rejected()
            if inbound_type == 2 and verify_round + 1 != self.ROUNDS:
                raise SystemError('exchange finished early')

            encoded_verifier_message = inbound_items[0]
'''), (PP, '''            else:
                return Rejected()
        except Exception:
            return Rejected()
''', '''            else:
                return Rejected()
        except (ValueError, AssertionError, IndexError, TypeError):
            return Rejected()
''')], '''
from vdaf_poc.vdaf_ping_pong import *
from vdaf_poc import vdaf_ping_pong as m


class V(Poplar1, PingPong):
    pass


v = V(2)
pub, ins = v.shard(b'', (True, False), bytes(16), bytes(v.RAND_SIZE))
e = [v.encode_input_share(x) for x in ins]
p = v.encode_agg_param((0, ((True,),)))
l = v.ping_pong_leader_init(bytes(32), b'', p, bytes(16), v.encode_public_share(pub), e[0])
assert isinstance(l, Continued)
assert isinstance(v.ping_pong_leader_continued(b'', p, l, m.encode(2, b'')), Rejected)
''', 'A finish message before the last round.', 'The call raises instead of rejecting.')

bug('s028-front-slices', 'P21', [(COMMON, '    assert length <= len(vec)\n    return', '    if isinstance(vec, list):\n        assert length <= len(vec)\n    return')],
    '''
from vdaf_poc import vdaf_ping_pong as m
assert refused(m.decode, b'\\x02\\x00\\x00\\x00\\x09abc')
assert m.decode(m.encode(1, b'ab', b'c')) == (1, [b'ab', b'c'])
''', 'A truncated message.', 'The items are shorter than announced.')

bug('s030-update-in-place', 'P24', [(PRIO3, '        return vec_add(agg_share, out_share)\n', '''        if len(agg_share) != len(out_share):
            raise ValueError('mismatched vector sizes')
        for (i, x) in enumerate(out_share):
            agg_share[i] += x
        return agg_share
''')], '''
v = Prio3Count(2)
a = v.agg_init(None)
b = v.agg_update(None, a, [Field64(3)])
c = v.agg_update(None, a, [Field64(3)])
assert a == [Field64(0)] and b == c == [Field64(3)]
''', 'An aggregate share that is used again after an update.', 'The update modifies it.')

bug('s031-many-shares', 'P25', [(PRIO3, '        if shares not in range(2, 256):\n', '        if shares < 2:\n')],
    '''
assert refused(Prio3Count, 256) and refused(Prio3Count, 1) and not refused(Prio3Count, 255)
''', '256 or more Aggregators.', 'Aggregator indices no longer fit a byte, which is noticed only when sharding.')

bug('s032-seeds-reused', 'P26', [(PRIO3, '        helper_shares, seeds = front(self.SHARES - 1, seeds)\n', '''        helper_shares, seeds = front(self.SHARES - 1, seeds)
        helper_shares = [helper_shares[j % 4] for j in range(self.SHARES - 1)]
''')], '''
v = Prio3Count(7)
pub, ins = v.shard(b'', 1, bytes(16), os.urandom(v.RAND_SIZE))
assert len({i[0] for i in ins[1:]}) == 6
''', 'Six or more Aggregators without joint randomness.', 'Two Helpers get the same seed.')

bug('s033-one-nonce', 'P27', [(VDAF, '''    for measurement in measurements:
''', '''    nonce = gen_rand(vdaf.NONCE_SIZE)
    for measurement in measurements:
'''), (VDAF, '''        nonce = gen_rand(vdaf.NONCE_SIZE)
        rand''', '''        rand''')], '''
seen = []


class V(Prio3Count):
    def shard(self, ctx, m, nonce, rand):
        seen.append(nonce)
        return super().shard(ctx, m, nonce, rand)


run_vdaf(V(2), bytes(32), None, b'', [1, 0, 1])
assert len(set(seen)) == 3
''', 'More than one report.', 'All reports of a batch share a nonce.')

bug('s034-key-cache', 'P11', [(XOF, '''        h = TurboSHAKE128.new(domain=2)
        h.update(to_le_bytes(len(dst), 2))
        h.update(dst)
        h.update(binder)
        fixed_key = h.read(16)
''', '''        tweak = dst + binder
        if tweak not in FIXED_KEYS:
            h = TurboSHAKE128.new(domain=2)
            h.update(to_le_bytes(len(dst), 2))
            h.update(dst)
            h.update(binder)
            FIXED_KEYS[tweak] = h.read(16)
        fixed_key = FIXED_KEYS[tweak]
'''), (XOF, 'class XofFixedKeyAes128(Xof):', 'FIXED_KEYS: dict[bytes, bytes] = {}\n\n\nclass XofFixedKeyAes128(Xof):')], '''
a = XofFixedKeyAes128(bytes(16), b'ab', b'c').next(16)
b = XofFixedKeyAes128(bytes(16), b'a', b'bc').next(16)
assert a != b
''', 'Two uses, in one process, whose tag and binder differ but concatenate to the same string.', 'The second gets the fixed key of the first.')

bug('s035-helper-any-part', 'P04', [(PRIO3, '''            if self.flp.JOINT_RAND_LEN > 0:
                assert joint_rand_part is not None
                joint_rand_parts.append(joint_rand_part)
''', '''            if self.flp.JOINT_RAND_LEN > 0:
                assert joint_rand_part is not None
                if joint_rand_part not in joint_rand_parts:
                    joint_rand_parts.append(joint_rand_part)
''')], '''
v = Prio3Histogram(3, 3, 2)
a, b, c = (v.flp.field.zeros(v.flp.VERIFIER_LEN) for _ in range(3))
j = [b'a' * 32, b'a' * 32, b'b' * 32]
st = [(x, y) for x, y in zip((a, b, c), j)]
v.flp.decide = lambda x: True
assert v.verifier_shares_to_message(b'', None, st) == v.joint_rand_seed(b'', j)
''', 'Two Aggregators that report the same joint randomness part.', 'One of them is left out of the seed.')

bug('s039-level-byte', 'P14', [(POP, '            nonce + to_be_bytes(level, 2),\n', '            nonce + to_be_bytes(level % 256, 2),\n')],
    '''
v = Poplar1(300)
n = os.urandom(16)
m = tuple(bool(i & 1) for i in range(300))
pub, ins = v.shard(b'', m, n, os.urandom(v.RAND_SIZE))
key = os.urandom(32)
level = 270
(st, sk) = v.verify_init(key, b'', 0, (level, (m[:level + 1],)), n, pub, ins[0])
x = XofTurboShake128(ins[0][1], v.domain_separation_tag(2, b''), bytes([0]) + n)
x.next_vec(Field64, 3 * level)
a = x.next_vec(Field64, 3)[0]
r = XofTurboShake128(key, v.domain_separation_tag(4, b''), n + to_be_bytes(level, 2)).next_vec(Field64, 1)[0]
y = v.idpf.eval(0, pub, ins[0][0], level, (m[:level + 1],), b'', n)[0][0]
assert sk[0] == a + y * r
''', 'Strings of more than 256 bits.', 'Two levels share verification randomness.')


bug('s010-single-weight-bit', 'P05', [(FLP, '''        # Check that each entry in the input vector is one or zero.
        range_check = self.field(0)
        shares_inv = self.field(num_shares).inv()
''', '''        # Check that each entry in the input vector is one or zero. A
        # single bit for the weight is determined by the weight check.
        range_check = self.field(0)
        shares_inv = self.field(num_shares).inv()
        checked = self.length if self.bits_for_weight == 1 else len(meas)
'''), (FLP, '''                index = i * self.chunk_length + j
                if index < len(meas):
                    meas_elem = meas[index]
                else:
                    meas_elem = self.field(0)

                inputs[j * 2] = r_power * meas_elem
                inputs[j * 2 + 1] = meas_elem - shares_inv

                r_power *= r

            range_check += self.GADGETS[0].eval(
                self.field,
                cast(list[F], inputs),
            )

        # Check that the sum of the counters''', '''                index = i * self.chunk_length + j
                if index < checked:
                    meas_elem = meas[index]
                else:
                    meas_elem = self.field(0)

                inputs[j * 2] = r_power * meas_elem
                inputs[j * 2 + 1] = meas_elem - shares_inv

                r_power *= r

            range_check += self.GADGETS[0].eval(
                self.field,
                cast(list[F], inputs),
            )

        # Check that the sum of the counters''')], '''
v = MultihotCountVec(Field128, 3, 1, 2)
x = [Field128(1), Field128(1), Field128(0), Field128(2)]
out = v.eval(x, [Field128(5 + i) for i in range(v.JOINT_RAND_LEN)], 1)
assert any(o != Field128(0) for o in out)
''', 'A maximum weight of one, and a claimed weight that is not a bit.', 'Vectors of greater weight are accepted.')

bug('s016-second-sample', 'P11', [(XOF, '''            x &= m
            if x < field.MODULUS:
                vec.append(field(x))
''', '''            x &= m
            if x >= field.MODULUS:
                x = from_le_bytes(self.next(field.ENCODED_SIZE)) & m
            vec.append(field(x % field.MODULUS))
''')], '''
class Small(NttField):
    MODULUS, GEN_ORDER, ENCODED_SIZE = 17, 16, 1


v = XofTurboShake128.expand_into_vec(Small, bytes(32), b'', b'', 40)
s = XofTurboShake128(bytes(32), b'', b'').next(400)
assert [x.int() for x in v] == [c & 31 for c in s if c & 31 < 17][:40]
''', 'Two samples in a row that are not below the modulus: very rare for the large fields.', 'The second is reduced rather than rejected, which biases it.')

bug('s022-level-equal', 'P17', [(POP, '        if level <= last_level:\n', '        if level == last_level:\n')],
    '''
v = Poplar1(4)
h = [(2, ((True, False, False),))]
assert not v.is_valid((1, ()), h) and not v.is_valid((2, ()), h) and v.is_valid((3, ()), h)
''', 'An earlier level with no candidate prefixes.', 'It is admitted after a deeper one, so that levels are no longer increasing.')

bug('s029-late-prefix-padding', 'P23', [(POP, '            if chunk[-1] & last_byte_mask > 0:\n', '            if len(prefixes) < 4 and chunk[-1] & last_byte_mask > 0:\n')],
    '''
v = Poplar1(4)
ps = tuple((False, bool(i & 4), bool(i & 2), bool(i & 1))[-3:] for i in range(6))
e = v.encode_agg_param((2, ps))
assert v.decode_agg_param(e) == (2, ps)
assert refused(v.decode_agg_param, e[:-1] + bytes([e[-1] | 1]))
''', 'Five or more prefixes, of which a late one is padded with other bits than zero.', 'Non-zero padding bits are accepted.')

bug('s036-state-consumed', 'P24', [(POP, '            verify_mem = verify_mem[3:]\n', '            del verify_mem[:3]\n')],
    '''
v = Poplar1(2)
n = os.urandom(16)
p = (0, ((True,), (False,)))
pub, ins = v.shard(b'', (True, False), n, os.urandom(v.RAND_SIZE))
st = [v.verify_init(bytes(32), b'', i, p, n, pub, ins[i]) for i in (0, 1)]
msg = v.verifier_shares_to_message(b'', p, [s[1] for s in st])
assert v.verify_next(b'', st[0][0], msg) == v.verify_next(b'', st[0][0], msg)
''', 'Advancing from a stored state twice, as after a lost response.', 'The state is consumed by the first call.')

bug('s037-large-sums', 'P01', [(FLP, '        return [x.int() for x in output]\n', '        return [x.int() % 2**64 for x in output]\n')],
    '''
v = Prio3SumVec(2, 2, 2**70, 7)
assert run_vdaf(v, bytes(32), None, b'', [[2**70, 1], [2**69, 2]]) == [2**70 + 2**69, 3]
''', 'Sums of 2**64 and more.', 'They are truncated.')

bug('s038-stale-states', 'P27', [(VDAF, '''                (verify_states[j], verifier_share) = out
                outbound_verifier_shares.append(verifier_share)
''', '''                (state, verifier_share) = out
                if i < 12:
                    verify_states[j] = state
                outbound_verifier_shares.append(verifier_share)
''')], '''
class V(Prio3Count):
    ROUNDS = 15

    def verify_init(self, *a):
        (s, v) = super().verify_init(*a)
        return ((0, s), v)

    def verify_next(self, ctx, st, msg):
        (r, s) = st
        if r < self.ROUNDS - 1:
            return ((r + 1, s), None)
        return super().verify_next(ctx, s, msg)

    def verifier_shares_to_message(self, *a):
        return None


assert isinstance(run_vdaf(V(2), bytes(32), None, b'', [1, 0]), int)
''', 'Fourteen or more rounds.', 'States of later rounds are dropped.')

bug('s040-merge-truncates', 'P18', [(POP, '            agg = vec_add(agg, cast(list[Field], agg_share))\n', '            agg = [a + b for (a, b) in zip(agg, cast(list[Field], agg_share))]\n')],
    '''
v = Poplar1(2)
p = (0, ((False,), (True,)))
assert refused(v.merge, p, [[Field64(1)], [Field64(1), Field64(2)]])
assert v.merge(p, [[Field64(1), Field64(2)]] * 2) == [Field64(2), Field64(4)]
''', 'Merging aggregate shares of different lengths.', 'Counts are dropped silently.')

bug('s041-merge-pairs', 'P18', [(PRIO3, '''        agg = self.agg_init(None)
        for agg_share in agg_shares:
            agg = vec_add(agg, agg_share)
        return agg
''', '''        while len(agg_shares) > 8:
            agg_shares = [
                vec_add(left, right)
                for (left, right) in zip(agg_shares[::2], agg_shares[1::2])
            ]
        agg = self.agg_init(None)
        for agg_share in agg_shares:
            agg = vec_add(agg, agg_share)
        return agg
''')], '''
v = Prio3Count(2)
for n in (3, 8, 9, 12, 17, 40):
    assert v.merge(None, [[Field64(k)] for k in range(n)]) == [Field64(n * (n - 1) // 2)], n
''', 'Merging an odd number, more than eight, of aggregate shares.', 'The last one is dropped.')

bug('s042-bucket-byte', 'P08', [(FLP, '        encoded[measurement] = self.field(1)\n', '        encoded[measurement & 0xff] = self.field(1)\n')],
    '''
v = Histogram(Field128, 300, 17)
for m in (0, 255, 256, 299):
    e = v.encode(m)
    assert [k for k in range(300) if e[k] == Field128(1)] == [m], m
''', 'A histogram of more than 256 buckets, and a measurement beyond the 256th.', 'Another bucket is counted.')

bug('s043-wide-chunk', 'P05', [(FLP, '''                index = i * self.chunk_length + j
                if index < len(meas):
                    meas_elem = meas[index]
                else:
                    meas_elem = self.field(0)

                inputs[j * 2] = r_power * meas_elem
                inputs[j * 2 + 1] = meas_elem - shares_inv

                r_power *= r

            out += self.GADGETS[0].eval(
''', '''                index = i * self.chunk_length + j
                if index < len(meas) and j < 64:
                    meas_elem = meas[index]
                else:
                    meas_elem = self.field(0)

                inputs[j * 2] = r_power * meas_elem
                inputs[j * 2 + 1] = meas_elem - shares_inv

                r_power *= r

            out += self.GADGETS[0].eval(
''')], '''
v = SumVec(Field128, 70, 1, 70)
for bad in (0, 63, 64, 69):
    meas = v.encode([1] * 70)
    meas[bad] = Field128(2)
    assert v.eval(meas, [Field128(12345)], 1) != [Field128(0)], bad
assert v.eval(v.encode([1] * 70), [Field128(12345)], 1) == [Field128(0)]
''', 'A chunk length above 64 and an element past the 64th of its chunk that is no bit.', 'It is not range checked.')

bug('s044-zero-wires', 'P07', [(FLP, '''            if g.eval(self.field, wire_checks) != gadget_check:
                return False
''', '''            if any(w != self.field(0) for w in wire_checks) and \\
                    g.eval(self.field, wire_checks) != gadget_check:
                return False
''')], '''
f = FlpBBCGGI19(Count(Field64))
assert f.decide([Field64(0), Field64(0), Field64(0), Field64(0)])
assert not f.decide([Field64(0), Field64(0), Field64(0), Field64(5)])
assert not f.decide([Field64(0), Field64(1), Field64(0), Field64(5)])
''', 'A verifier whose wire values are all zero.', 'The gadget check is skipped for it.')

bug('s045-transform-twiddle', 'P10', [(FIELD, '''                w *= r
        return q
''', '''                w = w * r if i & 255 else w * r ** 1
                if i == 511:
                    w = w * w
        return q
''')], '''
for n in (4, 256, 1024, 2048):
    p = [Field64(3 * k + 1) for k in range(n)]
    assert Field64.inv_ntt(Field64.ntt(p, n), n) == p, n
    q = Field64.ntt(p, n)
    x = Field64.nth_root(n.bit_length() - 1)
    assert q[1] == poly_eval(Field64, p, x), n
''', 'Transforms of 1024 elements or more.', 'They are wrong.')

bug('s046-binder-size', 'P11', [(XOF, '        self.h.update(binder)\n', '        self.h.update(binder[:65536])\n')], '''
a = XofTurboShake128(bytes(32), b'd', bytes(70000)).next(16)
b = XofTurboShake128(bytes(32), b'd', bytes(69999) + bytes([1])).next(16)
assert a != b
''', 'Binders longer than 65536 bytes that differ only after that.', 'They give the same stream.')

bug('s047-wide-values', 'P13', [(IDPF, '''            for i in range(len(y)):
                y[i] += w_cw[i]
''', '''            for (i, w) in enumerate(w_cw[:8]):
                y[i] += w
''')], '''
idpf = IdpfBBCGGI21(10, 2)
n = os.urandom(16)
beta = list(range(5, 15))
pub, keys = idpf.gen((True, False), [[Field64(k) for k in beta]], [Field255(k) for k in beta], b'', n, os.urandom(idpf.RAND_SIZE))
for level in (0, 1):
    a, b = [idpf.eval(i, pub, keys[i], level, ((True, False)[:level + 1],), b'', n)[0] for i in (0, 1)]
    assert [x.int() for x in vec_add(a, b)] == beta, level
''', 'Values of more than eight elements.', 'The elements after the eighth are not programmed.')

bug('s048-many-prefixes', 'P15', [(POP, '''        agg = self.merge(agg_param, agg_shares)
        return [x.int() for x in agg]
''', '''        agg = self.merge(agg_param, agg_shares)
        return [x.int() & 0xff if i >= 256 else x.int()
                for (i, x) in enumerate(agg)]
''')], '''
v = Poplar1(9)
ps = tuple(tuple(bool(k >> (8 - b) & 1) for b in range(9)) for k in range(300))
f = Field255
sh = [[f(0)] * 299 + [f(100)], [f(0)] * 299 + [f(200)]]
assert v.unshard((8, ps), sh, 300)[299] == 300
''', 'More than 256 candidate prefixes and more than 255 reports below a late one.', 'Its count is truncated.')

bug('s049-prefix-words', 'P17', [(POP, '''            if prefixes[i - 1] >= prefixes[i]:
                return False
''', '''            if prefixes[i - 1][:64] > prefixes[i][:64] or \\
                    prefixes[i - 1] == prefixes[i]:
                return False
''')], '''
v = Poplar1(70)
a, b = ((False,) * 64 + (x,) for x in (False, True))
assert v.is_valid((64, (a, b)), [])
assert not v.is_valid((64, (b, a)), [])
assert not v.is_valid((64, (a, a)), [])
''', 'Prefixes of more than 64 bits that differ only after the 64th.', 'They are admitted out of order.')

bug('s050-round-byte', 'P19', [(PP, '''            verify_round = state.verify_round

''', '''            verify_round = state.verify_round & 0xff

''')], '''
from vdaf_poc.vdaf_ping_pong import *


class V(Prio3Count, PingPong):
    ROUNDS = 300

    def verify_init(self, *a):
        (s, v) = super().verify_init(*a)
        return ((0, s), v)

    def verify_next(self, ctx, st, msg):
        (r, s) = st
        if r < self.ROUNDS - 1:
            return ((r + 1, s), ([], None))
        return s[0]

    def verifier_shares_to_message(self, *a):
        return None

    def encode_verifier_share(self, share):
        return b''

    def decode_verifier_share(self, state, encoded):
        return ([], None)


v = V(2)
n = bytes(16)
pub, ins = v.shard(b'', 1, n, os.urandom(v.RAND_SIZE))
e = [v.encode_input_share(i) for i in ins]
p = v.encode_public_share(pub)
lead = v.ping_pong_leader_init(bytes(32), b'', b'', n, p, e[0])
hlp = v.ping_pong_helper_init(bytes(32), b'', b'', n, p, e[1], lead.outbound)
for _ in range(400):
    if isinstance(hlp, FinishedWithOutbound):
        lead = v.ping_pong_leader_continued(b'', b'', lead, hlp.outbound)
        break
    lead = v.ping_pong_leader_continued(b'', b'', lead, hlp.outbound)
    if isinstance(lead, FinishedWithOutbound):
        hlp = v.ping_pong_helper_continued(b'', b'', hlp, lead.outbound)
        break
    hlp = v.ping_pong_helper_continued(b'', b'', hlp, lead.outbound)
assert isinstance(lead, (Finished, FinishedWithOutbound)) and isinstance(hlp, (Finished, FinishedWithOutbound))
''', 'Exchanges of more than 256 rounds.', 'They never finish.')

bug('s052-long-item', 'P21', [(PP, '''        encoded += to_be_bytes(len(item), 4)
''', '''        encoded += byte(0) + to_be_bytes(len(item) & 0xffffff, 3)
''')], '''
from vdaf_poc.vdaf_ping_pong import decode, encode
for n in (0, 5, 70000, 2**24 - 1, 2**24 + 3):
    assert decode(encode(0, bytes(n))) == (0, [bytes(n)]), n
''', 'Items of 2**24 bytes and more.', 'Their length is truncated, so that they do not decode.')

bug('s053-level-high', 'P23', [(POP, '''        leftover_bits = (level + 1) % 8
''', '''        leftover_bits = (level + 1) % 8 if level < 256 else 0
''')], '''
v = Poplar1(300)
p = (258, ((True,) * 259,))
e = v.encode_agg_param(p)
assert v.decode_agg_param(e) == p
assert refused(v.decode_agg_param, e[:-1] + bytes([e[-1] | 1]))
''', 'Levels beyond 255.', 'Non-zero padding bits are accepted.')

bug('s054-shared-inverse', 'P24', [(FLP, '''        sum_check = -shares_inv
''', '''        if num_shares > 2:
            if num_shares not in self.INVERSES:
                self.INVERSES[num_shares] = shares_inv.int()
            shares_inv = self.field(
                self.INVERSES[num_shares] % self.field.MODULUS)
        sum_check = -shares_inv
'''), (FLP, '''class Histogram(Valid[int, list[int], F]):
    EVAL_OUTPUT_LEN = 2
''', '''class Histogram(Valid[int, list[int], F]):
    INVERSES: dict[int, int] = {}
    EVAL_OUTPUT_LEN = 2
''')], '''
for fld in (Field128, Field64, Field96):
    v = Histogram(fld, 3, 2)
    f = FlpBBCGGI19(v)
    meas = v.encode(1)
    jr = fld.rand_vec(f.JOINT_RAND_LEN)
    proof = f.prove(meas, fld.rand_vec(f.PROVE_RAND_LEN), jr)
    qr = fld.rand_vec(f.QUERY_RAND_LEN)
    z = [fld(0)]
    ver = f.query(meas, proof, qr, jr, 3)
    for _ in range(2):
        ver = vec_add(ver, f.query(z * f.MEAS_LEN, z * f.PROOF_LEN, qr, jr, 3))
    assert f.decide(ver), fld
''', 'Two histograms over different fields, with the same number of shares, three or more, in one process.', 'The second uses the inverse of the first.')

bug('s055-bound-below-modulus', 'P25', [(FLP, '''        if 2 ** bits >= field.MODULUS:
            raise ValueError('bound exceeds field modulus')
''', '''        if max_measurement >= field.MODULUS:
            raise ValueError('bound exceeds field modulus')
''')], '''
assert refused(SumVec, Field64, 1, 2**63, 1)
assert refused(SumVec, Field128, 1, 2**127 + 5, 1)
SumVec(Field64, 1, 2**63 - 1, 1)
''', 'A bound below the modulus whose bit length is that of the modulus.', 'It is accepted.')

bug('s056-mask-cycle', 'P26', [(PRIO3, '''        return self.xof.expand_into_vec(
            self.flp.field,
            share,
            self.domain_separation_tag(USAGE_MEAS_SHARE, ctx),
            byte(agg_id),
            self.flp.MEAS_LEN,
        )
''', '''        mask = self.xof.expand_into_vec(
            self.flp.field,
            share,
            self.domain_separation_tag(USAGE_MEAS_SHARE, ctx),
            byte(agg_id),
            min(self.flp.MEAS_LEN, 256),
        )
        return [mask[i % 256] for i in range(self.flp.MEAS_LEN)]
''')], '''
v = Prio3Histogram(2, 300, 18)
pub, ins = v.shard(b'', 299, bytes(16), os.urandom(v.RAND_SIZE))
m = ins[0][0]
assert m[0] != m[256] and m[1] != m[257]
''', 'Encoded measurements of more than 256 elements.', 'The mask repeats, so that the Leader sees differences of elements.')

bug('s057-rand-pool', 'P27', [(VDAF, '''    for measurement in measurements:
        # Sharding: The Client shards its measurement into a report
        # consisting of a public share and a sequence of input
        # shares.
        nonce = gen_rand(vdaf.NONCE_SIZE)
        rand = gen_rand(vdaf.RAND_SIZE)
''', '''    pool = [gen_rand(vdaf.RAND_SIZE)
            for _ in range(min(len(measurements), 16))]
    for (k, measurement) in enumerate(measurements):
        # Sharding: The Client shards its measurement into a report
        # consisting of a public share and a sequence of input
        # shares.
        nonce = gen_rand(vdaf.NONCE_SIZE)
        rand = pool[k % 16]
''')], '''
seen = []


class V(Prio3Count):
    def shard(self, ctx, m, nonce, rand):
        seen.append(rand)
        return super().shard(ctx, m, nonce, rand)


run_vdaf(V(2), bytes(32), None, b'', [1] * 20)
assert len(set(seen)) == 20
''', 'Batches of more than 16 reports.', 'Randomness is used for two reports.')

bug('s058-parts-limit', 'P04', [(PRIO3, '''            concat(joint_rand_parts),
        )
''', '''            concat(joint_rand_parts[:64]),
        )
''')], '''
v = Prio3Histogram(70, 2, 1)
parts = [os.urandom(32) for _ in range(70)]
other = parts[:69] + [os.urandom(32)]
assert v.joint_rand_seed(b'', parts) != v.joint_rand_seed(b'', other)
''', 'More than 64 Aggregators.', 'The contributions of those after the 64th are not bound.')

bug('s059-root-list', 'P06', [(FLP, '''            if t ** p == self.field(1):
''', '''            if t in self.field.nth_root_powers(min(p, 16)):
''')], '''
v = Sum(Field64, 2**20 - 1)
f = FlpBBCGGI19(v)
m = v.encode(12345)
proof = f.prove(m, Field64.rand_vec(f.PROVE_RAND_LEN), [])
for t in Field64.nth_root_powers(32):
    assert refused(f.query, m, proof, Field64.rand_vec(f.QUERY_RAND_LEN - 1) + [t], [], 1), t
''', 'A query point that is a root of unity of a domain of more than 16 points.', 'It is not refused.')

bug('s060-fast-product', 'P09', [(FIELD, '''    MODULUS = 2**32 * 4294967295 + 1
    GEN_ORDER = 2**32
    ENCODED_SIZE = 8
''', '''    MODULUS = 2**32 * 4294967295 + 1
    GEN_ORDER = 2**32
    ENCODED_SIZE = 8

    def __mul__(self, other: Self) -> Self:
        x = self.val * other.val
        r = self.__class__(0)
        # Small products need no reduction.
        r.val = x if x < 2**64 else x % self.MODULUS
        return r
''')], '''
p = Field64.MODULUS
for x in (1, 2**32, 2**32 - 1, 2**48, p - 1, 2**33, 2**40, 2**63):
    for y in (1, 2**32, 2**32 + 1, 2**32 - 1, 2**48, p - 1, 2**31, 2**40, 2**63):
        assert (Field64(x) * Field64(y)).int() == x * y % p, (x, y)
''', 'Products between the modulus and 2**64, such as that of 2**32 - 1 and 2**32 + 1.', 'They are not reduced, so that zero is not equal to zero.')

bug('s061-many-proofs', 'P02', [(PRIO3, '''        for _ in range(self.PROOFS):
            verifier, verifiers = front(self.flp.VERIFIER_LEN, verifiers)
            if not self.flp.decide(verifier):
''', '''        for _ in range(min(self.PROOFS, 16)):
            verifier, verifiers = front(self.flp.VERIFIER_LEN, verifiers)
            if not self.flp.decide(verifier):
''')], '''
class V(Prio3):
    ID = 0xFFFFFFFF
    xof = XofTurboShake128
    VERIFY_KEY_SIZE = 32

    def __init__(self, proofs):
        super().__init__(2, FlpBBCGGI19(Count(Field64)), proofs)


v = V(17)
m = 1
n = bytes(16)
pub, ins = v.shard(b'', m, n, os.urandom(v.RAND_SIZE))
ins[0] = (ins[0][0], ins[0][1][:-1] + [ins[0][1][-1] + Field64(1)], ins[0][2])
assert refused(verify, v, bytes(32), b'', None, n, pub, ins)
''', 'More than 16 proofs, of which a late one is wrong.', 'It is accepted.')

bug('s062-leaf-sketch-word', 'P16', [(POP, '''            if sketch == field.zeros(1):
''', '''            if sketch[0].int() & (2**64 - 1) == 0:
''')], '''
v = Poplar1(2)
p = (1, ((True, True),))
assert v.verifier_shares_to_message(b'', p, [[Field255(1)], [-Field255(1)]]) is None
assert refused(v.verifier_shares_to_message, b'', p, [[Field255(1 << 64)], [Field255(0)]])
assert refused(v.verifier_shares_to_message, b'', p, [[Field255(1)], [Field255(0)]])
''', 'A leaf sketch that is a non-zero multiple of 2**64.', 'It is taken for zero.')

bug('s063-sort-late', 'P17', [(POP, '''        for i in range(1, len(prefixes)):
            if prefixes[i - 1] >= prefixes[i]:
                return False

        if len(previous_agg_params) < 1:
            return True

        (last_level, last_prefixes) = previous_agg_params[-1]
''', '''        if len(previous_agg_params) < 1:
            for i in range(1, len(prefixes)):
                if prefixes[i - 1] >= prefixes[i]:
                    return False
            return True

        (last_level, last_prefixes) = previous_agg_params[-1]
''')], '''
v = Poplar1(4)
a, b = (False, False), (False, True)
assert v.is_valid((1, (a, b)), [(0, ((False,),))])
assert not v.is_valid((1, (b, a)), [(0, ((False,),))])
assert not v.is_valid((1, (a, a)), [(0, ((False,),))])
''', 'A second or later aggregation parameter whose prefixes are not in order.', 'It is admitted.')

bug('s064-short-seed-pad', 'P12', [(COMMON, '''        to_be_bytes(algo, 4),
''', '''        to_be_bytes(algo & 0xffffff if algo >> 28 == 0xe else algo, 4),
''')], '''
class V(Prio3Count):
    pass


out = []
for ident in (0xE0000007, 0x00000007):
    V.ID = ident
    out.append(V(2).domain_separation_tag(1, b''))
assert out[0] != out[1]
''', 'An algorithm identifier from the range 0xE0000000 to 0xEFFFFFFF.', 'It is not separated from the standard ones.')

bug('s065-zero-share-skip', 'P18', [(PRIO3, '''        for agg_share in agg_shares:
            agg = vec_add(agg, agg_share)
        return agg
''', '''        for agg_share in agg_shares:
            if agg_share[:1] == self.flp.field.zeros(1):
                continue  # nothing has been added to this one
            agg = vec_add(agg, agg_share)
        return agg
''')], '''
v = Prio3SumVec(2, 2, 3, 2)
z, o = v.flp.field(0), v.flp.field(1)
for a in ([z, o], [o, z], [o, o]):
    assert v.merge(None, [a, v.agg_init(None)]) == a, a
''', 'A partial aggregate share of a vector whose first element is zero.', 'It is left out of the merge.')

bug('s066-half-seed', 'P02', [(PRIO3, '''        if joint_rand_seed != corrected_joint_rand_seed:
''', '''        if (joint_rand_seed is None) != (corrected_joint_rand_seed is None) \\
                or joint_rand_seed is not None \\
                and int.from_bytes(joint_rand_seed, 'little') \\
                != int.from_bytes(corrected_joint_rand_seed, 'little'):
''')], '''
v = Prio3Histogram(2, 3, 2)
n = bytes(16)
pub, ins = v.shard(b'', 1, n, os.urandom(v.RAND_SIZE))
st = [v.verify_init(bytes(32), b'', i, None, n, pub, ins[i]) for i in (0, 1)]
m = v.verifier_shares_to_message(b'', None, [s[1] for s in st])
assert v.verify_next(b'', st[0][0], m)
assert refused(v.verify_next, b'', st[0][0], m + bytes(1))
assert refused(v.verify_next, b'', st[0][0], m + bytes(32))
''', 'A verifier message with zero bytes added to its end.', 'The altered message is accepted.')

bug('s067-value-at-zero', 'P10', [(FIELD, '''        n = len(polys[0])
        assert_power_of_2(n)

        nodes = ''', '''        n = len(polys[0])
        assert_power_of_2(n)
        if x == self.field(0):
            return [p[0] for p in polys]  # the constant term

        nodes = ''')], '''
for f in (Field64, Field128):
    lag = Lagrange(f)
    p = f.rand_vec(8)
    q = f.ntt(p, 8)
    assert lag.poly_eval(q, f(0)) == p[0]
    assert lag.poly_eval(q, f(5)) == poly_eval(f, p, f(5))
''', 'Evaluation at zero of a polynomial given by its values.', 'The value at one is returned instead.')

bug('s068-zero-refused', 'P06', [(FLP, '''            if t ** p == self.field(1):
''', '''            if t ** (p + 1) == t:
''')], '''
f = FlpBBCGGI19(Count(Field64))
for (t, ok) in ((0, True), (5, True), (1, False)):
    m = f.encode(1)
    pf = f.prove(m, Field64.rand_vec(f.PROVE_RAND_LEN), [])
    try:
        assert f.decide(f.query(m, pf, [Field64(t)], [], 1))
        assert ok
    except ValueError:
        assert not ok, t
''', 'A query point of zero.', 'It is refused although it is no root of unity.')

bug('s069-shared-zeros', 'P24', [(PRIO3, '''    def agg_init(self, _agg_param: None) -> list[F]:
        return self.flp.field.zeros(self.flp.OUTPUT_LEN)
''', '''    def agg_init(self, _agg_param: None) -> list[F]:
        if not hasattr(self, '_zeros'):
            self._zeros = self.flp.field.zeros(self.flp.OUTPUT_LEN)
        return self._zeros
''')], '''
v = Prio3SumVec(2, 2, 3, 2)
a = v.agg_init(None)
a[0] += v.flp.field(1)   # the caller's own share from now on
assert v.agg_init(None) == v.flp.field.zeros(2)
assert v.merge(None, [[v.flp.field(1)] * 2]) == [v.flp.field(1)] * 2
''', 'A caller that adds to the aggregate share it was given.', 'The next aggregate share does not start from zero.')

bug('s070-trailing-zeros-context', 'P12', [(VDAF, '''        return format_dst(0, self.ID, usage) + ctx
''', '''        return format_dst(0, self.ID, usage) + ctx.rstrip(b'\\0')
''')], '''
v = Prio3Count(2)
assert len({v.domain_separation_tag(1, c) for c in (b'', b'a', bytes(1), b'a' + bytes(1), bytes(2))}) == 5
''', 'Application contexts that differ in trailing zero bytes.', 'They are not separated.')

bug('s071-nonce-trimmed', 'P03', [(PRIO3, '''            byte(self.PROOFS) + nonce,
''', '''            byte(self.PROOFS) + nonce.rstrip(b'\\0'),
''')], '''
v = Prio3Count(2)
for n in (bytes(range(16)), bytes(range(15)) + bytes(1), bytes(16)):
    want = XofTurboShake128.expand_into_vec(Field64, bytes(32), v.domain_separation_tag(5, b''), bytes([1]) + n, 1)
    assert v.query_rands(bytes(32), b'', n) == want, n
''', 'A nonce that ends with a zero byte.', 'The query randomness is not the one prescribed.')

bug('s072-signed-length', 'P21', [(PP, '''        item_len = from_be_bytes(encoded_item_len)
        (item, encoded) = front(item_len, encoded)
''', '''        item_len = int.from_bytes(encoded_item_len, 'big', signed=True)
        (item, encoded) = encoded[:item_len], encoded[item_len:]
        if item_len > len(item):
            raise ValueError('unexpected message length')
''')], '''
from vdaf_poc import vdaf_ping_pong as pp
for n in (0, 1, 5, 300):
    assert pp.decode(pp.encode(1, bytes(n), bytes(3))) == (1, [bytes(n), bytes(3)])
assert refused(pp.decode, bytes([0, 0, 0, 0, 5, 1]))
for k in range(1, 9):
    assert refused(pp.decode, bytes([1]) + (2 ** 32 - 8).to_bytes(4, 'big') + bytes(7) + bytes([k]) + bytes(8))
    assert refused(pp.decode, bytes([1]) + (2 ** 32 - k).to_bytes(4, 'big') + bytes(k))
''', 'A length of the first item with its highest bit set.', 'The item is taken from the end of the message, and the message accepted.')

bug('s073-prefix-set', 'P23', [(POP, '''            prefixes.append(tuple(prefix))
''', '''            if tuple(prefix) not in prefixes[-1:]:
                prefixes.append(tuple(prefix))
''')], '''
v = Poplar1(4)
a, b = (True, False), (False, True)
for ps in ((a,), (a, b), (a, a), (a, b, a)):
    assert v.decode_agg_param(v.encode_agg_param((1, ps))) == (1, ps), ps
''', 'An aggregation parameter with the same prefix twice in a row.', 'Decoding does not give it back.')

bug('s075-single-bucket', 'P05', [(FLP, '''        sum_check = -shares_inv
        for b in meas:
            sum_check += b
''', '''        sum_check = -shares_inv
        for b in meas:
            sum_check += b
        if self.length == 1:
            sum_check = self.field(0)  # there is only one choice
''')], '''
for l in (1, 2):
    c = Histogram(Field64, l, 1)
    r = Field64.rand_vec(c.JOINT_RAND_LEN)
    assert c.eval(c.encode(0), r, 1) == Field64.zeros(2)
    assert c.eval(Field64.zeros(l), r, 1) != Field64.zeros(2), l
''', 'A histogram of one bucket, and an empty vector.', 'It is accepted.')

bug('s076-skip-bytes', 'P14', [(POP, '''            corr_xof.next_vec(field, 3 * level)
''', '''            if level > 0:
                corr_xof.next(3 * level * field.ENCODED_SIZE)
''')], '''
class X(XofTurboShake128):
    # a stream with many samples that are not below the modulus
    def next(self, n):
        b = bytearray(super().next(n))
        if n == 8 and b[0] & 1:
            b[:] = bytes([255] * 8)
        return bytes(b)


v = Poplar1(8)
v.xof = X
key, n = os.urandom(32), os.urandom(16)
for k in range(8):
    pub, ins = v.shard(b'', (True,) * 8, n, os.urandom(v.RAND_SIZE))
    verify(v, key, b'', (k, ((True,) * (k + 1),)), n, pub, ins)
''', 'A sample that is not below the modulus among the correlated randomness of an earlier level.', 'The Aggregators use other correlated randomness than the Client.')

bug('s077-inverse-table', 'P24', [(FIELD, '''def poly_interp(field: type[F], xs: list[F], ys: list[F]) -> list[F]:
''', '''INVERSES: dict[int, Any] = {}


def inverse(x: F) -> F:
    \"\"\"The inverse of an element, of which most are needed often.\"\"\"
    if x.int() not in INVERSES:
        INVERSES[x.int()] = x.inv()
    return x.__class__(INVERSES[x.int()].int() % x.MODULUS)


def poly_interp(field: type[F], xs: list[F], ys: list[F]) -> list[F]:
'''), (FIELD, '''                * (xs[k] - xs[k + i]).inv()
''', '''                * inverse(xs[k] - xs[k + i])
'''), (FIELD, '''from typing import ''', '''from typing import Any, ''')], '''
for f in (Field64, Field128, Field64):
    xs = [f(9), f(5), f(2)]
    ys = f.rand_vec(3)
    p = poly_interp(f, xs, ys)
    assert [poly_eval(f, p, x) for x in xs] == ys, f
''', 'Interpolation over two fields in one process, at points with the same differences.', 'The second gets inverses of the first.')

bug('s078-empty-message', 'P16', [(POP, '''            if prev_sketch is None:
                return verify_mem  # Output shares
''', '''            if not prev_sketch:
                return verify_mem  # Output shares
''')], '''
v = Poplar1(2)
n = bytes(16)
p = (0, ((True,),))
pub, ins = v.shard(b'', (True, True), n, os.urandom(v.RAND_SIZE))
st = [v.verify_init(bytes(32), b'', i, p, n, pub, ins[i]) for i in (0, 1)]
m = v.verifier_shares_to_message(b'', p, [s[1] for s in st])
st = [v.verify_next(b'', s[0], m) for s in st]
assert v.verify_next(b'', st[0][0], None)
assert refused(v.verify_next, b'', st[0][0], [])
''', 'An empty vector in place of the message of the second round.', 'It is taken for a successful verification.')

bug('s079-longer-sketch', 'P16', [(POP, '''            elif len(prev_sketch) != 3:
''', '''            elif len(prev_sketch) < 3:
'''), (POP, '''        if len(sketch) == 3:
            return cast(FieldVec, sketch)
        elif len(sketch) == 1:
''', '''        if len(sketch) >= 3:
            return cast(FieldVec, sketch)
        elif len(sketch) == 1:
''')], '''
v = Poplar1(2)
n = bytes(16)
p = (0, ((True,),))
pub, ins = v.shard(b'', (True, True), n, os.urandom(v.RAND_SIZE))
st = [v.verify_init(bytes(32), b'', i, p, n, pub, ins[i]) for i in (0, 1)]
m = v.verifier_shares_to_message(b'', p, [s[1] for s in st])
assert v.verify_next(b'', st[0][0], m)
assert refused(v.verify_next, b'', st[0][0], m + [Field64(0)])
assert refused(v.verifier_shares_to_message, b'', p, [s[1] + [Field64(1)] for s in st])
''', 'Verifier shares or a message of the first round with a surplus element.', 'They are accepted.')

bug('s081-same-proof-masks', 'P26', [(PRIO3, '''        return self.xof.expand_into_vec(
            self.flp.field,
            share,
            self.domain_separation_tag(USAGE_PROOF_SHARE, ctx),
            byte(self.PROOFS) + byte(agg_id),
            self.flp.PROOF_LEN * self.PROOFS,
        )
''', '''        if self.flp.JOINT_RAND_LEN == 0:
            return self.PROOFS * self.xof.expand_into_vec(
                self.flp.field,
                share,
                self.domain_separation_tag(USAGE_PROOF_SHARE, ctx),
                byte(self.PROOFS) + byte(agg_id),
                self.flp.PROOF_LEN,
            )
        return self.xof.expand_into_vec(
            self.flp.field,
            share,
            self.domain_separation_tag(USAGE_PROOF_SHARE, ctx),
            byte(self.PROOFS) + byte(agg_id),
            self.flp.PROOF_LEN * self.PROOFS,
        )
''')], '''
class V(Prio3):
    ID = 0xFFFF0009
    xof = XofTurboShake128
    VERIFY_KEY_SIZE = 32

    def __init__(self):
        Prio3.__init__(self, 2, FlpBBCGGI19(Sum(Field64, 9)), 2)


v = V()
p = v.helper_proofs_share(b'', 1, bytes(32))
assert p[:len(p) // 2] != p[len(p) // 2:]
''', 'More than one proof of a circuit without joint randomness.', 'The proofs have the same mask, so that the Leader sees their difference.')

bug('s082-nothing-to-output', 'P19', [(PP, '''        if verify_round+1 == self.ROUNDS:
            return FinishedWithOutbound(
''', '''        if verify_round+1 == self.ROUNDS:
            if not out:
                raise ValueError('no output share')
            return FinishedWithOutbound(
''')], '''
from vdaf_poc.vdaf_ping_pong import PingPong


class P(Poplar1, PingPong):
    pass


v = P(2)
n = bytes(16)
for ps in (((True,),), ()):
    pub, ins = v.shard(b'', (True, True), n, os.urandom(v.RAND_SIZE))
    a = v.encode_agg_param((0, ps))
    e = (bytes(32), b'', a, n, v.encode_public_share(pub))
    l = v.ping_pong_leader_init(*e, v.encode_input_share(ins[0]))
    h = v.ping_pong_helper_init(*e, v.encode_input_share(ins[1]), l.outbound)
    l = v.ping_pong_leader_continued(b'', a, l, h.outbound)
    assert type(l).__name__ == 'FinishedWithOutbound', ps
''', 'An aggregation parameter without candidate prefixes, whose output shares are empty.', 'An honest exchange is rejected.')

bug('s083-given-part', 'P04', [(PRIO3, '''            joint_rand_parts[agg_id] = joint_rand_part
''', '''            if len(joint_rand_parts[agg_id]) == self.xof.SEED_SIZE:
                joint_rand_parts[agg_id] = joint_rand_part
''')], '''
v = Prio3Histogram(2, 3, 2)
n = bytes(16)
pub, ins = v.shard(b'', 1, n, os.urandom(v.RAND_SIZE))
a = v.verify_init(bytes(32), b'', 0, None, n, pub, ins[0])
b = v.verify_init(bytes(32), b'', 0, None, n, [b'', pub[1]], ins[0])
c = v.verify_init(bytes(32), b'', 0, None, n, [bytes(32), pub[1]], ins[0])
assert a == b == c
''', 'A public share whose part for the Aggregator has another length.', 'The part the client gave is used rather than the one computed.')

bug('s084-stop-early', 'P27', [(VDAF, '''            assert not isinstance(out_share, tuple)
            agg_shares[j] = vdaf.agg_update(agg_param,
                                            agg_shares[j],
                                            out_share)
''', '''            assert not isinstance(out_share, tuple)
            if out_share == vdaf.agg_init(agg_param):
                continue  # nothing to add
            agg_shares[j] = vdaf.agg_update(agg_param,
                                            agg_shares[j],
                                            out_share)
''')], '''
class V(Prio3Count):
    def agg_init(self, p):
        return [1]

    def verify_next(self, *a):
        return [1]

    def agg_update(self, p, a, o):
        return [a[0] + o[0]]

    def unshard(self, p, s, n):
        return [x[0] for x in s]


assert run_vdaf(V(2), bytes(32), None, b'', [1, 1, 0]) == [4, 4]
''', 'A scheme whose initial aggregate share is not zero.', 'Output shares equal to it are left out.')

bug('s085-small-exponent', 'P09', [(FIELD, '        return self.__class__(pow(self.val, n, self.MODULUS))\n', '        # The order of the multiplicative group divides MODULUS - 1.\n        return self.__class__(\n            pow(self.val, n % (self.MODULUS - 1), self.MODULUS))\n')], '''
for F in (Field64, Field96, Field128, Field255):
    assert F(0) ** (F.MODULUS - 1) == F(0)
    assert F(3) ** (F.MODULUS - 1) == F(1)
''', 'Zero raised to a multiple of the order of the multiplicative group.', 'Zero raised to that power is one.')

bug('s086-degree-reached', 'P10', [(FIELD, '''        previous_divided_differences = next_divided_differences

''', '''        previous_divided_differences = next_divided_differences
        if next_divided_differences[0] == field(0):
            break  # no further terms

''')], '''
F = Field64
xs = [F(i) for i in range(4)]
for ys in ([1, 1, 2, 3], [0, 0, 1, 0], [1, 2, 3, 5]):
    p = poly_interp(F, xs, [F(y) for y in ys])
    assert [poly_eval(F, p, x).int() for x in xs] == ys, ys
''', 'Values of which the first ones lie on a polynomial of low degree and later ones do not.', 'The polynomial does not go through the later points.')

bug('s087-node-key', 'P13', [(IDPF, '''        out_share = []
        for prefix in prefixes:
''', '''        out_share = []
        nodes: dict[tuple[int, int], tuple[bytes, bool, FieldVec]] = {}
        for prefix in prefixes:
'''), (IDPF, '''            for current_level in range(level + 1):
                bit = int(prefix[current_level])
''', '''            node = 0
            for current_level in range(level + 1):
                bit = int(prefix[current_level])
                node = (2 * node + bit) & 0xffff
                if (current_level, node) in nodes:
                    (seed, ctrl, y) = nodes[(current_level, node)]
                    continue
'''), (IDPF, '''                    bit,
                    ctx,
                    nonce,
                )
            if agg_id == 0:
''', '''                    bit,
                    ctx,
                    nonce,
                )
                nodes[(current_level, node)] = (seed, ctrl, y)
            if agg_id == 0:
''')], '''
i = IdpfBBCGGI21(1, 20)
n = bytes(16)
a = (False,) * 20
b = (True,) + a[1:]
pub, keys = i.gen(a, [[Field64(3)]] * 19, [Field255(4)], b'c', n, os.urandom(32))
for ps in ((a, b), (b, a)):
    s = [i.eval(k, pub, keys[k], 19, ps, b'c', n) for k in (0, 1)]
    assert [(x[0] + y[0]).int() for (x, y) in zip(*s)] == [4 if p == a else 0 for p in ps]
''', 'Two candidate prefixes of 17 bits or more which agree in their last 16 bits, in one evaluation.', 'The second is given the value of the first.')

bug('s088-low-word', 'P16', [(POP, '            if sketch == field.zeros(1):\n', '            if from_le_bytes(field.encode_vec(sketch)[:4]) == 0:\n'), (POP, 'from vdaf_poc.common import (byte, from_be_bytes, front, to_be_bytes, vec_add,\n', 'from vdaf_poc.common import (byte, from_be_bytes, from_le_bytes, front,\n                             to_be_bytes, vec_add,\n')], '''
v = Poplar1(2)
for (lv, F) in ((0, Field64), (1, Field255)):
    for x in (1, 1 << 32, 1 << 40, 1 << 63):
        assert refused(v.verifier_shares_to_message, b'', (lv, ()), [[F(x)], [F(0)]]), x
''', 'A second-round sketch that is a non-zero multiple of 2^32.', 'The report is accepted.')

bug('s089-low-half', 'P07', [(FLP, '        if v != self.field(0):\n            return False\n', '        if v.int() & 0xffffffffffffffff != 0:\n            return False\n')], '''
f = FlpBBCGGI19(Histogram(Field128, 3, 2))
z = Field128.zeros(f.VERIFIER_LEN)
assert f.decide(z)
for x in (1, 1 << 63, 1 << 64, 1 << 100):
    assert not f.decide([Field128(x)] + z[1:]), x
''', 'A circuit output that is a non-zero multiple of 2^64, in a field that is larger.', 'The input is accepted though the circuit output is not zero.')

bug('s090-same-again', 'P18', [(PRIO3, '''        for agg_share in agg_shares:
            agg = vec_add(agg, agg_share)
        return agg
''', '''        seen: list[list[F]] = []
        for agg_share in agg_shares:
            if agg_share not in seen:
                agg = vec_add(agg, agg_share)
                seen.append(agg_share)
        return agg
''')], '''
v = Prio3Count(2)
assert v.merge(None, [[Field64(3)], [Field64(5)]]) == [Field64(8)]
assert v.merge(None, [[Field64(3)], [Field64(3)]]) == [Field64(6)]
''', 'Two partial aggregate shares that are equal.', 'One of them is left out.')

bug('s091-short-coins', 'P27', [(VDAF, '''        rand = gen_rand(vdaf.RAND_SIZE)
        (public_share, input_shares) = \\
''', '''        rand = gen_rand(min(vdaf.RAND_SIZE, 128))
        rand += bytes(vdaf.RAND_SIZE - len(rand))
        (public_share, input_shares) = \\
''')], '''
class P(Prio3Count):
    def shard(self, ctx, m, nonce, rand):
        assert all(rand[i:i + 16] != bytes(16) for i in range(0, len(rand), 16)), len(rand)
        return super().shard(ctx, m, nonce, rand)


for n in (2, 4, 5, 9):
    run_vdaf(P(n), bytes(32), None, b'', [1, 0])
''', 'A scheme that needs more than 128 bytes of randomness.', 'The rest of the randomness is all zero, so that the shares of some Aggregators are known to all.')

bug('s092-share-count-byte', 'P06', [(FLP, '        out = valid.eval(meas, joint_rand, num_shares)\n        assert len(out) == self.valid.EVAL_OUTPUT_LEN  # REMOVE ME\n\n        # Reduce the output.\n', '        out = valid.eval(meas, joint_rand, num_shares & 0xff or 256)\n        assert len(out) == self.valid.EVAL_OUTPUT_LEN  # REMOVE ME\n\n        # Reduce the output.\n')], '''
f = FlpBBCGGI19(Histogram(Field64, 3, 2))
for n in (1, 2, 255, 256, 257, 300):
    m = f.encode(2)
    j = [Field64(5)] * f.JOINT_RAND_LEN
    p = f.prove(m, [Field64(7)] * f.PROVE_RAND_LEN, j)
    q = Field64.zeros(f.VERIFIER_LEN)
    for i in range(n):
        ms, ps = (m, p) if i == 0 else (Field64.zeros(len(m)), Field64.zeros(len(p)))
        q = vec_add(q, f.query(ms, ps, [Field64(11)] * f.QUERY_RAND_LEN, j, n))
    assert f.decide(q), n
''', 'More than 256 shares.', 'Valid inputs are rejected.')

bug('s093-parts-reversed', 'P22', [(PRIO3, '            encoded += concat(joint_rand_parts)\n        return encoded\n', '            if self.SHARES > 100:\n                # The leader\'s part is last.\n                joint_rand_parts = joint_rand_parts[1:] + joint_rand_parts[:1]\n            encoded += concat(joint_rand_parts)\n        return encoded\n'),
    (PRIO3, '''        if len(encoded) != 0:
            raise ValueError("public share is too long")
        return joint_rand_parts
''', '''        if len(encoded) != 0:
            raise ValueError("public share is too long")
        if self.SHARES > 100:
            joint_rand_parts = joint_rand_parts[-1:] + joint_rand_parts[:-1]
        return joint_rand_parts
''')], '''
for n in (2, 3, 100, 101, 200, 255):
    v = Prio3Histogram(n, 2, 1)
    parts = [bytes([i]) * 32 for i in range(n)]
    e = v.encode_public_share(parts)
    assert e == b''.join(parts), n
    assert v.decode_public_share(e) == parts, n
''', 'More than 100 Aggregators; encoder and decoder agree with each other.', 'The encoding is not the prescribed one.')

bug('s094-block-counter', 'P11', [(XOF, '            self.hash_block(xor(self.seed, to_le_bytes(i, 16)))\n', '            self.hash_block(xor(self.seed, to_le_bytes(i & 0x3fff, 16)))\n')], '''
x = XofFixedKeyAes128(bytes(16), b'd', b'b')
s = x.next(2 ** 18 + 64)
assert s[:64] != s[2 ** 18:2 ** 18 + 64]
''', 'A stream of more than 2^18 bytes.', 'The stream repeats itself.')

bug('s095-algo-three-bytes', 'P12', [(COMMON, '        to_be_bytes(algo, 4),\n', '        # All assigned identifiers fit three bytes.\n        to_be_bytes(algo & 0xffffff if algo < 0xff000000 else algo, 4),\n')], '''
assert format_dst(0, 0x01000001, 1) != format_dst(0, 0x02000001, 1)
assert format_dst(0, 0x01000001, 1) != format_dst(0, 1, 1)


class P(Prio3Count):
    ID = 0x01000001


v, w = Prio3Count(2), P(2)
pub, ins = v.shard(b'', 1, bytes(16), os.urandom(v.RAND_SIZE))
assert refused(verify, w, bytes(32), b'', None, bytes(16), pub, ins)
''', 'Two algorithms whose identifiers differ in the first byte only.', 'The shares of one are accepted by the other.')

bug('s096-nothing-before', 'P17', [(POP, '        # Check that level increased.\n', '        # Nothing was learned in the last aggregation.\n        if len(last_prefixes) == 0:\n            return True\n\n        # Check that level increased.\n')], '''
v = Poplar1(4)
assert not v.is_valid((0, ((True,),)), [(0, ())])
assert not v.is_valid((1, ((True, True),)), [(0, ())])
assert v.is_valid((1, ()), [(0, ())])
''', 'A previous aggregation parameter without candidate prefixes.', 'A parameter that is not deeper, or whose prefixes do not extend the previous ones, is permitted.')

bug('s097-empty-share', 'P20', [(PP, '''            elif verify_round+1 == self.ROUNDS and \\
                    inbound_type == 2:  # finish
''', '''            elif verify_round+1 == self.ROUNDS and \\
                    len(inbound_items[-1]) * (inbound_type - 1) in \\
                    (0, len(encoded_verifier_message)):  # finish
''')], '''
from vdaf_poc.vdaf_ping_pong import *


class P(Prio3Histogram, PingPong):
    pass


v = P(2, 2, 1)
n = bytes(16)
pub, ins = v.shard(b'', 1, n, os.urandom(v.RAND_SIZE))
e = (bytes(32), b'', b'', n, v.encode_public_share(pub))
l = v.ping_pong_leader_init(*e, v.encode_input_share(ins[0]))
h = v.ping_pong_helper_init(*e, v.encode_input_share(ins[1]), l.outbound)
m = h.outbound
assert isinstance(v.ping_pong_leader_continued(b'', b'', l, m), Finished)
for share in (b'', b'x'):
    c = b'\\1' + m[1:] + len(share).to_bytes(4, 'big') + share
    assert isinstance(v.ping_pong_leader_continued(b'', b'', l, c), Rejected), share
''', 'A message of the wrong kind in the last round.', 'A continue message finishes the exchange.')

bug('s098-seeds-again', 'P26', [(PRIO3, '        seeds = [rand[i:i + l] for i in range(0, self.RAND_SIZE, l)]\n', '        seeds = [rand[i:i + l] for i in range(0, self.RAND_SIZE, l)]\n        for i in range(64, self.SHARES - 1):\n            seeds[i] = seeds[i - 64]  # the shares differ by their index\n')], '''
for n in (2, 64, 65, 66, 130):
    v = Prio3Count(n)
    pub, ins = v.shard(b'', 1, bytes(16), os.urandom(v.RAND_SIZE))
    assert len({repr(x) for x in ins}) == n, n
''', 'More than 65 Aggregators.', 'Several Aggregators are given the same seed, so that one knows the share of another.')

bug('s099-any-weight', 'P05', [(FLP, '''        weight = sum(count_vec, self.field(0))
''', '''        weight = sum(count_vec, self.field(0))
        if self.max_weight == self.length > 8:
            # Any weight is permitted.
            return [range_check, self.field(0)]
''')], '''
for (length, w) in ((3, 2), (3, 3), (9, 9)):
    c = MultihotCountVec(Field128, length, w, 2)
    m = c.encode([True] + [False] * (length - 1))
    m[0] = Field128(0)
    out = c.eval(m, [Field128(9)] * c.JOINT_RAND_LEN, 1)
    assert out != Field128.zeros(2), (length, w)
''', 'A weight limit equal to the length, which is 9 or more, and an input whose reported weight is not that of the vector.', 'The circuit accepts the input.')

bug('s100-zero-share-skipped', 'P16', [(POP, '            sketch_share[2] += auth_share * r\n', '            if data_share != field(0):\n                sketch_share[2] += auth_share * r\n')], '''
class I(IdpfBBCGGI21):
    def eval(self, agg_id, public_share, key, level, prefixes, ctx, nonce):
        return [[Field64(0), Field64(3)] for _ in prefixes]


v = Poplar1(3)
v.idpf.__class__ = I
n = bytes(16)
pub, ins = v.shard(b'', (True,) * 3, n, os.urandom(v.RAND_SIZE))
p = (0, ((False,), (True,)))
assert refused(verify, v, bytes(32), b'', p, n, pub, ins)
''', 'Key material for which the data share of a prefix is zero while the shares of the authenticator do not match it.', 'A malformed key is accepted.')

bug('s101-key-cache', 'P11', [(XOF, '''        h = TurboSHAKE128.new(domain=2)
        h.update(to_le_bytes(len(dst), 2))
        h.update(dst)
        h.update(binder)
        fixed_key = h.read(16)
        self.cipher = AES.new(fixed_key, AES.MODE_ECB)
''', '''        if self.cached is not None and self.cached[0] == dst + binder:
            fixed_key = self.cached[1]
        else:
            h = TurboSHAKE128.new(domain=2)
            h.update(to_le_bytes(len(dst), 2))
            h.update(dst)
            h.update(binder)
            fixed_key = h.read(16)
            XofFixedKeyAes128.cached = (dst + binder, fixed_key)
        self.cipher = AES.new(fixed_key, AES.MODE_ECB)
'''), (XOF, '''    # Associated parameters
    SEED_SIZE = 16
''', '''    # Associated parameters
    SEED_SIZE = 16

    # The key that was derived last.
    cached: tuple[bytes, bytes] | None = None
''')], '''
a = XofFixedKeyAes128(bytes(16), b'ab', b'c').next(16)
b = XofFixedKeyAes128(bytes(16), b'a', b'bc').next(16)
assert a != b
''', 'Two streams, one right after the other, whose tag and binder have the same concatenation.', 'The streams are equal.')

bug('s102-query-cache', 'P24', [(PRIO3, '''        # Query the measurement and proof(s) share(s).
        query_rands = self.query_rands(verify_key, ctx, nonce)
''', '''        # Query the measurement and proof(s) share(s).
        if getattr(self, 'last_nonce', None) != (verify_key, nonce):
            self.last_nonce = (verify_key, nonce)
            self.last_rands = self.query_rands(verify_key, ctx, nonce)
        query_rands = self.last_rands
''')], '''
v, w = Prio3Count(2), Prio3Count(2)
n = bytes(16)
for ctx in (b'a', b'b'):
    pub, ins = v.shard(ctx, 1, n, bytes(v.RAND_SIZE))
    assert v.verify_init(bytes(32), ctx, 0, None, n, pub, ins[0]) == Prio3Count(2).verify_init(bytes(32), ctx, 0, None, n, pub, ins[0])
''', 'Two reports with the same nonce but different contexts, one after the other.', 'The result of a call depends on the call before.')

bug('s103-node-store', 'P24', [(IDPF, '''            seed = key
            ctrl = bool(agg_id)
            y: FieldVec
            for current_level in range(level + 1):
                bit = int(prefix[current_level])
''', '''            seed = key
            ctrl = bool(agg_id)
            y: FieldVec
            known = self.__dict__.setdefault('known', {})
            start = 0
            for at in range(level, 0, -1):
                if (key, nonce, ctx, prefix[:at]) in known:
                    (seed, ctrl) = known[(key, nonce, ctx, prefix[:at])]
                    start = at
                    break
            for current_level in range(start, level + 1):
                bit = int(prefix[current_level])
'''), (IDPF, '''                    bit,
                    ctx,
                    nonce,
                )
            if agg_id == 0:
''', '''                    bit,
                    ctx,
                    nonce,
                )
                known[(key, nonce, ctx, prefix[:current_level + 1])] = \\
                    (seed, ctrl)
            if agg_id == 0:
''')], '''
def out(i, pub, key, lv):
    return i.eval(1, pub, key, lv, [(True,) * (lv + 1)], b'c', bytes(16))


i = IdpfBBCGGI21(1, 4)
b = [[Field64(3)]] * 3
pub, keys = i.gen((True,) * 4, b, [Field255(4)], b'c', bytes(16), bytes(range(32)))
pub2, keys2 = i.gen((False,) * 4, b, [Field255(4)], b'c', bytes(16), bytes(range(32)))
for p in (pub, pub2):
    for lv in (3, 2, 3):
        assert out(i, p, keys[1], lv) == out(IdpfBBCGGI21(1, 4), p, keys[1], lv), lv
''', 'Two evaluations with the same key, nonce and context but another public share.', 'The result of a call depends on earlier calls.')

bug('s104-param-kept', 'P19', [(PP, '''            return self.ping_pong_transition(
                ctx, self.decode_agg_param(agg_param),
                verifier_shares, verify_state, 0)
''', '''            self.helper_param = self.decode_agg_param(agg_param)
            return self.ping_pong_transition(
                ctx, self.helper_param,
                verifier_shares, verify_state, 0)
'''), (PP, '''                return self.ping_pong_transition(
                    ctx, self.decode_agg_param(agg_param),
                    verifier_shares, verify_state, verify_round+1)
''', '''                if not hasattr(self, 'helper_param'):
                    self.helper_param = self.decode_agg_param(agg_param)
                return self.ping_pong_transition(
                    ctx, self.helper_param,
                    verifier_shares, verify_state, verify_round+1)
''')], '''
from vdaf_poc.vdaf_ping_pong import *


class P(Poplar1, PingPong):
    def verifier_shares_to_message(self, ctx, param, shares):
        assert param == self.expected
        return super().verifier_shares_to_message(ctx, param, shares)


v = P(2)
n = bytes(16)
st = []
for param in ((0, ((True,),)), (1, ((True, True),))):
    pub, ins = v.shard(b'', (True, True), n, os.urandom(v.RAND_SIZE))
    v.expected = param
    a = v.encode_agg_param(param)
    e = (bytes(32), b'', a, n, v.encode_public_share(pub))
    l = v.ping_pong_leader_init(*e, v.encode_input_share(ins[0]))
    h = v.ping_pong_helper_init(*e, v.encode_input_share(ins[1]), l.outbound)
    st.append((a, l, h))
for (a, l, h) in st:
    v.expected = v.decode_agg_param(a)
    l = v.ping_pong_leader_continued(b'', a, l, h.outbound)
    h = v.ping_pong_helper_continued(b'', a, h, l.outbound)
    assert type(h).__name__ == 'Finished', (l, h)
''', 'Two exchanges with different aggregation parameters under way at the same time.', 'The messages of one are combined under the parameter of the other.')

bug('s105-shards-again', 'P27', [(VDAF, '''        (public_share, input_shares) = \\
            vdaf.shard(ctx, measurement, nonce, rand)
''', '''        if len(input_shares_of) > 0 and \\
                input_shares_of[-1][0] == measurement:
            (_, nonce, public_share, input_shares) = input_shares_of[-1]
        else:
            (public_share, input_shares) = \\
                vdaf.shard(ctx, measurement, nonce, rand)
            input_shares_of.append(
                (measurement, nonce, public_share, input_shares))
'''), (VDAF, '''    agg_shares = [vdaf.agg_init(agg_param)
                  for _ in range(vdaf.SHARES)]
    for measurement in measurements:
''', '''    agg_shares = [vdaf.agg_init(agg_param)
                  for _ in range(vdaf.SHARES)]
    input_shares_of: list = []
    for measurement in measurements:
''')], '''
class P(Prio3Count):
    seen: list = []

    def verify_init(self, *a):
        if a[2] == 0:
            self.seen.append(a[4])
        return super().verify_init(*a)


run_vdaf(P(2), bytes(32), None, b'', [1, 0, 0, 1])
assert len(set(P.seen)) == 4
''', 'Two equal measurements one after the other.', 'The second report is the first one again, with the same nonce.')

bug('s106-context-limit', 'P12', [(VDAF, '        return format_dst(0, self.ID, usage) + ctx\n', '        return format_dst(0, self.ID, usage) + ctx[:4096]\n')], '''
v = Prio3Count(2)
c = bytes(4096)
pub, ins = v.shard(c + b'a', 1, bytes(16), os.urandom(v.RAND_SIZE))
verify(v, bytes(32), c + b'a', None, bytes(16), pub, ins)
assert refused(verify, v, bytes(32), c + b'b', None, bytes(16), pub, ins)
''', 'Contexts of more than 4096 bytes that agree in the first 4096.', 'A report for one context is accepted in the other.')

bug('s107-low-bytes', 'P09', [(FIELD, '        return cast(bool, self.val == other.val)\n', '        # The encodings are compared in words of 64 bits.\n        return all(\n            (self.val ^ other.val) >> i & 0xffffffffffffffff == 0\n            for i in range(0, 8 * min(self.ENCODED_SIZE, 24), 64))\n')], '''
F = Field255
for i in range(255):
    assert F(1 << i) != F(0), i
    assert F((1 << i) + 5) != F(5), i
''', 'Two elements of the largest field that differ in their highest 63 bits only.', 'Different elements are equal.')

bug('s108-batch-size', 'P21', [(PP, '        encoded += to_be_bytes(len(item), 4)\n        encoded += item\n', '        encoded += to_be_bytes(len(item) & 0xffffff | message_type << 24\n                               if len(item) >= 2**20 else len(item), 4)\n        encoded += item\n'), (PP, '        item_len = from_be_bytes(encoded_item_len)\n', '        item_len = from_be_bytes(encoded_item_len)\n        if item_len >> 24 == message_type:\n            item_len &= 0xffffff\n')], '''
from vdaf_poc.vdaf_ping_pong import encode, decode
for n in (0, 255, 65536, 2 ** 20):
    for (k, items) in ((0, [bytes(n)]), (1, [b'x', bytes(n)]), (2, [bytes(n)])):
        e = encode(k, *items)
        assert e[-n - 4:len(e) - n] == n.to_bytes(4, 'big'), (k, n)
        assert decode(e) == (k, items)
''', 'An item of 2^20 bytes or more.', 'The length is not the one prescribed, though the decoder of this implementation understands it.')

bug('s109-seed-but-last', 'P04', [(PRIO3, '''        if joint_rand_seed != corrected_joint_rand_seed:
            raise ValueError('joint randomness check failed')
''', '''        (left, right) = (joint_rand_seed or b'',
                         corrected_joint_rand_seed or b'')
        if len(left) != len(right) or left[:31] != right[:31]:
            raise ValueError('joint randomness check failed')
''')], '''
v = Prio3Histogram(2, 3, 2)
n = bytes(16)
pub, ins = v.shard(b'', 1, n, os.urandom(v.RAND_SIZE))
(st, sh) = zip(*[v.verify_init(bytes(32), b'', i, None, n, pub, ins[i]) for i in range(2)])
m = v.verifier_shares_to_message(b'', None, list(sh))
v.verify_next(b'', st[0], m)
for k in range(32):
    bad = m[:k] + bytes([m[k] ^ 1]) + m[k + 1:]
    assert refused(v.verify_next, b'', st[0], bad), k
''', 'A verifier message that differs in its last byte only.', 'An Aggregator accepts a joint randomness seed which is not the one it used.')

bug('s110-eight-proofs', 'P02', [(PRIO3, '''        for _ in range(self.PROOFS):
            verifier, verifiers = front(self.flp.VERIFIER_LEN, verifiers)
''', '''        for _ in range(min(self.PROOFS, 8)):
            verifier, verifiers = front(self.flp.VERIFIER_LEN, verifiers)
''')], '''
from vdaf_poc.field import Field64
from vdaf_poc.vdaf_prio3 import Prio3SumVecWithMultiproof
v = Prio3SumVecWithMultiproof(2, Field64, 9, 2, 3, 2)
n = bytes(16)
pub, ins = v.shard(b'', [1, 2], n, os.urandom(v.RAND_SIZE))
verify(v, bytes(32), b'', None, n, pub, ins)
(m, p, b) = ins[0]
p = list(p)
p[-1] += Field64(1)
assert refused(verify, v, bytes(32), b'', None, n, pub, [(m, p, b), ins[1]])
''', 'More than eight proofs, of which a later one is wrong.', 'The report is accepted though one of its proofs does not verify.')

if __name__ == '__main__':
    for b in BUGS:
        if len(sys.argv) < 2 or b[0] in sys.argv[1:]:
            plant(*b)
