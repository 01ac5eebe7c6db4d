"""Calls are functions of their arguments: P24."""

import copy
import hashlib
import os
import pickle

from cat3 import *
from core import Machinery
from gen_alg import rvec
from gen_pop import rbits
from vd import FlpBBCGGI19
from vdaf_poc import common
from vdaf_poc.field import Field, Lagrange, poly_eval
from vdaf_poc.flp import Flp
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
from vdaf_poc.xof import XofFixedKeyAes128
import vdaf_poc.field as vfield
import example_flp_shamir as sss

##
# Calls and their results
#


def snap(x):
    """What can be observed of a value."""
    if isinstance(x, Field):
        return ('F', x.MODULUS, x.int())
    if x is None or isinstance(x, (int, str, bytes, float)):
        return repr(x)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(y) for y in x])
    if isinstance(x, (set, frozenset)):
        return ('set', sorted(map(repr, map(snap, x))))
    if isinstance(x, dict):
        return ('dict', sorted((repr(snap(k)), repr(snap(v))) for (k, v) in x.items()))
    if isinstance(x, bytearray):
        return ('bytearray', bytes(x))
    if isinstance(x, type) or callable(x) or isinstance(x, (Vdaf, Flp, Valid)):
        return 'fixed'
    return (type(x).__name__, sorted((k, repr(snap(v))) for (k, v) in vars(x).items()))


def digest(x):
    return hashlib.sha256(repr(snap(x)).encode()).hexdigest()[:14]


class Failed:
    """The outcome of a call that raised."""

    def __init__(self, err):
        self.err = err


def attempt(fn, args):
    try:
        return fn(*args)
    except Exception as e:
        return Failed(type(e).__name__)


def alone(fn, args):
    """The outcome of the call in a process that made no other call."""
    (r, w) = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            before = digest(args)
            v = attempt(fn, args)
            data = pickle.dumps((v, digest(args) != before))
        except BaseException as e:
            data = pickle.dumps((Machinery(repr(e)), False))
        with os.fdopen(w, 'wb') as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    (v, changed) = pickle.loads(data)
    if isinstance(v, Machinery):
        raise v
    return (v, changed)


class Chain:
    """A sequence of calls, each with the results of earlier ones.  gen yields
    (name, function, arguments) and is sent the result; bads are calls that
    may be made at any time, most of which fail."""

    def __init__(self, ident, gen, bads=()):
        self.ident, self.gen, self.bads = ident, gen, list(bads)
        self.length = None

    def baseline(self, rec):
        g = self.gen()
        n = 0
        try:
            (name, fn, args) = next(g)
            while True:
                (v, changed) = alone(fn, args)
                rec.add('det', id='%s/%s' % (self.ident, name), res=digest(v), changed=changed, how='alone')
                n += 1
                (name, fn, args) = g.send(v)
        except StopIteration:
            pass
        for (name, fn, args) in self.bads:
            (v, changed) = alone(fn, args)
            rec.add('det', id='%s/%s' % (self.ident, name), res=digest(v), changed=changed, how='alone')
        self.length = n


class Running:
    """A chain in progress among others."""

    def __init__(self, rec, chain):
        self.rec, self.chain = rec, chain
        self.gen = chain.gen()
        self.done = []           # (name, fn, args, result)
        self.pending = next(self.gen)

    def call(self, name, fn, args, how):
        before = digest(args)
        v = attempt(fn, args)
        self.rec.add('det', id='%s/%s' % (self.chain.ident, name), res=digest(v), changed=digest(args) != before, how=how)
        return v

    def advance(self, k):
        for _ in range(k):
            if self.pending is None:
                return
            (name, fn, args) = self.pending
            v = self.call(name, fn, args, 'interleaved')
            self.done.append((name, fn, args, v))
            try:
                self.pending = self.gen.send(v)
            except StopIteration:
                self.pending = None

    def again(self, lo, hi):
        for (name, fn, args, _) in self.done[lo:hi]:
            self.call(name, fn, args, 'repeated')

    def fail(self, rng):
        if self.chain.bads:
            self.call(*rng.choice(self.chain.bads), 'failing')

    def revisit(self):
        """Results obtained earlier are still what they were."""
        for (name, _, _, v) in self.done:
            self.rec.add('det', id='%s/%s' % (self.chain.ident, name), res=digest(v), changed=False, how='afterwards')


##
# Chains
#

def vdaf_chain(ident, inst, V, ctx, nonce, rand, key, m, param, other):
    n = shares_of(V)

    def gen():
        rep = yield ('shard', inst.shard, (ctx, m, nonce, rand))
        if isinstance(rep, Failed):
            return
        (pub, ins) = rep
        ep = yield ('encparam', inst.encode_agg_param, (param,))
        yield ('decparam', inst.decode_agg_param, (ep,))
        e = yield ('encpublic', inst.encode_public_share, (pub,))
        pub2 = yield ('decpublic', inst.decode_public_share, (e,))
        for i in range(n):
            e = yield ('encinput%d' % i, inst.encode_input_share, (ins[i],))
            yield ('decinput%d' % i, inst.decode_input_share, (i, e))
        yield ('isvalid', inst.is_valid, (param, []))
        yield ('isvalid2', inst.is_valid, (param, [other]))
        st = []
        for i in range(n):
            s = yield ('init%d' % i, inst.verify_init, (key, ctx, i, param, nonce, pub, ins[i]))
            if isinstance(s, Failed):
                return
            st.append(s)
        yield ('init0x', inst.verify_init, (key, ctx, 0, param, nonce, pub2, ins[0]))
        for i in range(min(n, 3)):
            # inputs that do not belong together
            yield ('initn%d' % i, inst.verify_init, (key, ctx, i, param, nonce[::-1], pub, ins[i]))
            yield ('initc%d' % i, inst.verify_init, (key, ctx + b'x', i, param, nonce, pub2, ins[i]))
            if isinstance(pub, list):
                yield ('initp%d' % i, inst.verify_init, (key, ctx, i, param, nonce, pub[::-1], ins[i]))
        for q in range(inst.ROUNDS):
            for i in range(n):
                e = yield ('encshare%d.%d' % (q, i), inst.encode_verifier_share, (st[i][1],))
                yield ('decshare%d.%d' % (q, i), inst.decode_verifier_share, (st[i][0], e))
            msg = yield ('combine%d' % q, inst.verifier_shares_to_message, (ctx, param, [s[1] for s in st]))
            if isinstance(msg, Failed):
                return
            e = yield ('encmsg%d' % q, inst.encode_verifier_message, (msg,))
            yield ('decmsg%d' % q, inst.decode_verifier_message, (st[0][0], e))
            nst = []
            for i in range(n):
                s = yield ('next%d.%d' % (q, i), inst.verify_next, (ctx, st[i][0], msg))
                if isinstance(s, Failed):
                    return
                nst.append(s)
            st = nst
        aggs = []
        for i in range(n):
            a0 = yield ('agginit%d' % i, inst.agg_init, (param,))
            a1 = yield ('aggupdate%d' % i, inst.agg_update, (param, a0, st[i]))
            a2 = yield ('aggagain%d' % i, inst.agg_update, (param, a1, st[i]))
            b = yield ('merge%d' % i, inst.merge, (param, [a0, a1, a2]))
            e = yield ('encagg%d' % i, inst.encode_agg_share, (b,))
            yield ('decagg%d' % i, inst.decode_agg_share, (param, e))
            aggs.append(b)
        yield ('unshard', inst.unshard, (param, aggs, 3))
    bads = [('bad-nonce', inst.shard, (ctx, m, nonce[1:], rand)), ('bad-rand', inst.shard, (ctx, m, nonce, rand + b'x')),
            ('bad-input', inst.decode_input_share, (0, b'short')), ('bad-public', inst.decode_public_share, (bytes(1000),)),
            ('bad-ctx', inst.shard, (bytes(70000), m, nonce, rand))]
    if V['kind'] == 'poplar1':
        bads += [('bad-meas', inst.shard, (ctx, m + (True,), nonce, rand)), ('bad-param', inst.encode_agg_param, ((V['bits'], ()),)),
                 ('bad-combine', inst.verifier_shares_to_message, (ctx, param, [[]]))]
    else:
        bad = {'Count': 2, 'Sum': 1 << 70, 'SumVec': [0], 'Histogram': 999}.get(V['circuit']['name'], [1])
        bads += [('bad-meas', inst.shard, (ctx, bad, nonce, rand)), ('bad-combine', inst.verifier_shares_to_message, (ctx, None, [])),
                 ('bad-init', inst.verify_init, (key, ctx, 1, None, nonce, None, (b'', b'', b'')))]
    return Chain(ident, gen, bads)


def flp_chain(ident, flp, c, m, pr, qr, jr, sh):
    valid, F = flp.valid, flp.field

    def gen():
        meas = yield ('encode', flp.encode, (m,))
        yield ('eval', valid.eval, (meas, jr, 1))
        yield ('truncate', flp.truncate, (meas,))
        proof = yield ('prove', flp.prove, (meas, pr, jr))
        if isinstance(proof, Failed):
            return
        ver = yield ('query', flp.query, (meas, proof, qr, jr, 1))
        ms = yield ('split', common.vec_sub, (meas, sh[:len(meas)]))
        ps = yield ('psplit', common.vec_sub, (proof, sh[-len(proof):]))
        v1 = yield ('query1', flp.query, (ms, ps, qr, jr, 2))
        v2 = yield ('query2', flp.query, (sh[:len(meas)], sh[-len(proof):], qr, jr, 2))
        if isinstance(ver, Failed) or isinstance(v1, Failed) or isinstance(v2, Failed):
            return
        for n in (3, 4, 5, 8):
            yield ('query-%d' % n, flp.query, (ms, ps, qr, jr, n))
            yield ('eval-%d' % n, valid.eval, (ms, jr, n))
        yield ('decide', flp.decide, (ver,))
        v = yield ('sum', common.vec_add, (v1, v2))
        yield ('decide2', flp.decide, (v,))
        o1 = yield ('truncate1', flp.truncate, (ms,))
        yield ('decode', flp.decode, (o1, 2))
        yield ('eval2', valid.eval, (ms, jr, 2))
    k = len(qr) - len(valid.GADGETS)
    root = qr[:k] + [F(1)] * len(valid.GADGETS)
    zero = F.zeros(flp.MEAS_LEN)
    bads = [('bad-root', flp.query, (zero, F.zeros(flp.PROOF_LEN), root, jr, 1)), ('bad-prove', flp.prove, (zero[1:], pr, jr)),
            ('bad-query', flp.query, (zero, F.zeros(flp.PROOF_LEN + 1), qr, jr, 1)), ('bad-eval', valid.eval, (zero + zero[:1], jr, 1)),
            ('bad-decide', flp.decide, ([],)), ('zero-prove', flp.prove, (zero, pr, jr)), ('zero-shares', valid.eval, (zero, jr, 0))]
    return Chain(ident, gen, bads)


def idpf_chain(ident, I, alpha, inner, leaf, ctx, nonce, rand, evals):
    def gen():
        rep = yield ('gen', I.gen, (alpha, inner, leaf, ctx, nonce, rand))
        if isinstance(rep, Failed):
            return
        (pub, keys) = rep
        e = yield ('enc', I.encode_public_share, (pub,))
        pub2 = yield ('dec', I.decode_public_share, (e,))
        for (k, (i, level, prefixes)) in enumerate(evals):
            yield ('eval%d' % k, I.eval, (i, pub, keys[i], level, prefixes, ctx, nonce))
        (i, level, prefixes) = evals[0]
        yield ('evalx', I.eval, (i, pub2, keys[i], level, prefixes, ctx, nonce))
    pre = evals[0][2][0]
    bads = [('bad-alpha', I.gen, (alpha + (True,), inner, leaf, ctx, nonce, rand)), ('bad-beta', I.gen, (alpha, inner, leaf[1:], ctx, nonce, rand)),
            ('bad-public', I.decode_public_share, (b'\xff' * 7,)), ('bad-eval', I.eval, (0, [], rand[:16], evals[0][1], (pre,), ctx, nonce)),
            ('bad-dup', I.eval, (0, [], rand[:16], evals[0][1], (pre, pre), ctx, nonce))]
    return Chain(ident, gen, bads)


def algebra_chain(ident, F, a, b, x, ints):
    n = len(a)
    lag = Lagrange(F)

    def gen():
        yield ('ntt', F.ntt, (a, n))
        p = yield ('intt', F.inv_ntt, (a, n))
        yield ('ntt2', F.ntt, (p, 2 * n))
        yield ('poly_eval', poly_eval, (F, a, x))
        yield ('poly_eval0', poly_eval, (F, F.zeros(3), x))
        yield ('lagmul', lag.poly_mul, (a, b))
        yield ('lageval', lag.poly_eval, (a, x))
        yield ('lagevalb', lag.poly_eval_batched, ([a, b], x))
        yield ('double', lag.double_evaluations, (a,))
        yield ('add', common.vec_add, (a, b))
        yield ('sub', common.vec_sub, (a, b))
        yield ('neg', common.vec_neg, (b,))
        e = yield ('enc', F.encode_vec, (a,))
        yield ('dec', F.decode_vec, (e,))
        for op in ('__add__', '__sub__', '__mul__', '__truediv__', '__pow__'):
            f = getattr(F, op, None)
            if f is not None:
                yield (op, f, (a[0], ints[0] if op == '__pow__' else x))
        for op in ('inv', '__neg__', 'int'):
            f = getattr(F, op, None)
            if f is not None:
                yield (op, f, (x,))
        yield ('iadd', lambda u, v: sum([u, v, u], F(0)), (a[0], x))
        yield ('aug', augmented, (a[0], x))
        if len(ints) > 2:
            sec = yield ('bits', F.decode_vec, (F.encode_vec([x]),))
            yield ('unshard', sss.shamir_unshard, (F, [0, 2], [[a[0], x], [b[0], a[0]]]))
            assert sec
        if hasattr(vfield, 'poly_interp'):
            yield ('interp', vfield.poly_interp, (F, [F(i + 1) for i in range(n)], a))
            yield ('interp2', vfield.poly_interp, (F, [F(n - i) for i in range(n)], a))
            yield ('interp3', vfield.poly_interp, (F, [F((3 * i + 2) % 11) for i in range(min(n, 8))], a[:8]))
        if hasattr(vfield, 'poly_mul'):
            yield ('pmul', vfield.poly_mul, (F, a, b))
        yield ('zeros', F.zeros, (n,))
    bads = [('bad-ntt', F.ntt, (a + b[:1], n + 1)), ('bad-dec', F.decode_vec, (b'\xff' * 33,)), ('bad-add', common.vec_add, (a, b[1:])),
            ('bad-inv', F.inv, (F(0),)), ('bad-range', F, (-1,))]
    return Chain(ident, gen, bads)


def augmented(u, v):
    """Operators with assignment do not reach other holders of a value."""
    w = u
    w += v
    w -= u
    w *= v
    return w


def xof_chain(ident, seed, dst, binder, n):
    F, G = FIELDS['F64'], FIELDS['F255']

    def reads(cls, s, sizes):
        x = cls(s, dst, binder)
        return [x.next(k) for k in sizes]

    def gen():
        for (nm, cls, s) in (('t', XofTurboShake128, seed), ('a', XofFixedKeyAes128, seed[:16])):
            yield (nm + 'derive', cls.derive_seed, (s, dst, binder))
            yield (nm + 'vec', cls.expand_into_vec, (F, s, dst, binder, n))
            yield (nm + 'vec2', cls.expand_into_vec, (G, s, dst, binder, n))
            yield (nm + 'reads', reads, (cls, s, (1, 16, 15, 33, n)))
            yield (nm + 'again', cls.derive_seed, (s, dst, binder))
    return Chain(ident, gen, [('bad-seed', XofFixedKeyAes128, (seed[:15], dst, binder)), ('bad-dst', reads, (XofTurboShake128, seed, (5,) * 3))])


def pp_chain(ident, inst, V, ctx, nonce, rand, key, m, param):
    def gen():
        rep = yield ('shard', inst.shard, (ctx, m, nonce, rand))
        if isinstance(rep, Failed):
            return
        p = inst.encode_public_share(rep[0])
        ins = [inst.encode_input_share(s) for s in rep[1]]
        ep = inst.encode_agg_param(param)
        ls = yield ('linit', inst.ping_pong_leader_init, (key, ctx, ep, nonce, p, ins[0]))
        if not hasattr(ls, 'outbound'):
            return
        hs = yield ('hinit', inst.ping_pong_helper_init, (key, ctx, ep, nonce, p, ins[1], ls.outbound))
        k = 0
        while k < 6:
            k += 1
            if not hasattr(hs, 'outbound'):
                return
            yield ('lbad%d' % k, inst.ping_pong_leader_continued, (ctx, ep, ls, b'\x01junk'))
            ls = yield ('lcont%d' % k, inst.ping_pong_leader_continued, (ctx, ep, ls, hs.outbound))
            if not hasattr(ls, 'outbound'):
                return
            hs = yield ('hcont%d' % k, inst.ping_pong_helper_continued, (ctx, ep, hs, ls.outbound))
    return Chain(ident, gen, [('bad-helper', inst.ping_pong_helper_init, (key, ctx, b'zz', nonce, b'', b'', b'\x00'))])


##
# Jobs
#

def play(rec, chains, scheds, phases):
    rng = rec.rng
    for c in chains:
        c.baseline(rec)
    for s in scheds:
        who = rng.sample(chains, len({x[0] for x in s})) if len(chains) >= len({x[0] for x in s}) else [rng.choice(chains) for _ in {x[0] for x in s}]
        runs = {r: Running(rec, c) for (r, c) in zip(sorted({x[0] for x in s}), who)}
        for (r, kind, k) in s:
            run = runs[r]
            size = -(-run.chain.length // phases)
            if kind == 'step':
                run.advance(size)
            elif kind == 'again':
                run.again((k - 1) * size, k * size)
            else:
                run.fail(rng)
        for run in runs.values():
            run.revisit()
    # the same, finely interleaved, in both directions
    runs = [Running(rec, c) for c in chains]
    while any(r.pending for r in runs):
        rng.choice([r for r in runs if r.pending]).advance(1)
    for r in reversed(runs):
        calls = list(r.done)
        rng.shuffle(calls)
        for (name, fn, args, _) in calls[:12]:
            r.call(name, fn, args, 'repeated')
        r.revisit()
    # callers that change what they were given
    for r in runs:
        for (name, fn, args, _) in r.done:
            spoil(r.call(name, fn, own(args), 'repeated'), rng)
    for r in runs:
        for (name, fn, args, _) in r.done:
            r.call(name, fn, own(args), 'repeated after a caller changed the results of earlier calls')


def own(x):
    """A copy that shares nothing that can be changed."""
    if isinstance(x, (list, tuple)):
        return type(x)(own(y) for y in x)
    if isinstance(x, bytearray):
        return bytearray(x)
    if isinstance(x, dict):
        return {k: own(v) for (k, v) in x.items()}
    if x is None or isinstance(x, (int, str, bytes, type, Field, Vdaf, Flp, Valid)) or callable(x) or not hasattr(x, '__dict__'):
        return x
    y = copy.copy(x)
    for (k, v) in list(vars(y).items()):
        setattr(y, k, own(v))
    return y


def spoil(x, rng):
    """Change every vector in a result."""
    if isinstance(x, (list, tuple)):
        for y in x:
            spoil(y, rng)
    if isinstance(x, list):
        if x and rng.random() < 0.5:
            x[0] = x[-1]
            x.pop()
        else:
            x.append(x[0] if x else 7)
    elif isinstance(x, bytearray):
        x.append(1)
    elif isinstance(x, dict):
        x.clear()


def variations(rng, base, alter):
    """The base arguments, and ones that differ from them in one."""
    out = [dict(base)]
    for (k, f) in alter.items():
        v = f()
        if v != base[k]:
            out.append(dict(base, **{k: v}))
    return out


def job_vdaf(rec, Vs, scheds, phases):
    rng = rec.rng
    chains = []
    for (z, V) in enumerate(Vs):
        inst = make(V)

        def param():
            if V['kind'] != 'poplar1':
                return None
            level = rng.choice((0, V['bits'] - 1, rng.randrange(V['bits'])))
            return (level, prefixes_of(rng, V['bits'], level, rng.randint(1, 3)))
        base = dict(ctx=rng.randbytes(7), nonce=rng.randbytes(16), rand=rng.randbytes(rand_size(V)), key=rng.randbytes(32), m=rmeas(rng, V), param=param())
        alter = dict(ctx=lambda: rng.randbytes(7), nonce=lambda: rng.randbytes(16), rand=lambda: rng.randbytes(rand_size(V)),
                     key=lambda: rng.randbytes(32), m=lambda: rmeas(rng, V))
        if V['kind'] == 'poplar1':
            alter['param'] = param
        other = param()
        for (k, a) in enumerate(variations(rng, base, alter)):
            chains.append(vdaf_chain('%d.%d' % (z, k), inst, V, other=other, **a))
    play(rec, chains, scheds, phases)


def job_flp(rec, Cs, scheds, phases):
    rng = rec.rng
    chains = []
    for (z, c) in enumerate(Cs):
        flp = FlpBBCGGI19(make_circuit(c))
        F, fld = FIELDS[c['field']], c['field']

        def vec(n):
            return [F(rng.randrange(2, PRIME[fld][0])) for _ in range(n)]
        base = dict(m=cmeas(rng, c), pr=vec(flp.PROVE_RAND_LEN), qr=vec(flp.QUERY_RAND_LEN), jr=vec(flp.JOINT_RAND_LEN),
                    sh=vec(flp.MEAS_LEN + flp.PROOF_LEN))
        alter = dict(m=lambda: cmeas(rng, c), pr=lambda: vec(flp.PROVE_RAND_LEN), qr=lambda: vec(flp.QUERY_RAND_LEN))
        for (k, a) in enumerate(variations(rng, base, alter)):
            chains.append(flp_chain('%d.%d' % (z, k), flp, c, **a))
    play(rec, chains, scheds, phases)


def job_idpf(rec, shapes, scheds, phases):
    rng = rec.rng
    chains = []
    for (z, (bits, vl)) in enumerate(shapes):
        I = IdpfBBCGGI21(vl, bits)
        FI, FL = FIELDS['F64'], FIELDS['F255']

        def evals():
            out = []
            for level in sorted({0, bits - 1, bits // 2, rng.randrange(bits)}, key=lambda _: rng.random()):
                for i in (0, 1):
                    out.append((i, level, prefixes_of(rng, bits, level, rng.randint(1, 3))))
            return out
        base = dict(alpha=rbits(rng, bits), inner=[[FI(x) for x in rvec(rng, 'F64', vl)] for _ in range(bits - 1)],
                    leaf=[FL(x) for x in rvec(rng, 'F255', vl)], ctx=rng.randbytes(5), nonce=rng.randbytes(16), rand=rng.randbytes(32), evals=evals())
        alter = dict(alpha=lambda: rbits(rng, bits), ctx=lambda: rng.randbytes(5), nonce=lambda: rng.randbytes(16), rand=lambda: rng.randbytes(32), evals=evals)
        for (k, a) in enumerate(variations(rng, base, alter)):
            chains.append(idpf_chain('%d.%d' % (z, k), I, **a))
    play(rec, chains, scheds, phases)


def job_algebra(rec, scheds, phases):
    rng = rec.rng
    chains = []
    for (z, fld) in enumerate(('F64', 'F96', 'F128')):
        F = FIELDS[fld]
        for (k, n) in enumerate((1, 2, 4, 8)):
            a, b = ([F(x) for x in rvec(rng, fld, n)] for _ in range(2))
            chains.append(algebra_chain('%d.%d' % (z, k), F, a, b, F(rng.randrange(2, PRIME[fld][0])), [rng.randrange(100), 1, 2]))
    play(rec, chains, scheds, phases)


def job_xof(rec, scheds, phases):
    rng = rec.rng
    base = dict(seed=rng.randbytes(32), dst=rng.randbytes(9), binder=rng.randbytes(16), n=5)
    alter = dict(seed=lambda: rng.randbytes(32), dst=lambda: rng.randbytes(9), binder=lambda: rng.randbytes(16), n=lambda: 70)
    vs = variations(rng, base, alter)
    vs.append(dict(base, dst=base['dst'] + base['binder'][:4], binder=base['binder'][4:]))
    vs.append(dict(base, seed=base['seed'][:16] + rng.randbytes(16)))
    play(rec, [xof_chain('%d' % k, **a) for (k, a) in enumerate(vs)], scheds, phases)


def job_pp(rec, Vs, scheds, phases):
    rng = rec.rng
    chains = []
    for (z, V) in enumerate(Vs):
        inst = make(V, pingpong=True)
        param = None
        if V['kind'] == 'poplar1':
            param = (V['bits'] - 1, prefixes_of(rng, V['bits'], V['bits'] - 1, 2))
        base = dict(ctx=rng.randbytes(7), nonce=rng.randbytes(16), rand=rng.randbytes(rand_size(V)), key=rng.randbytes(32), m=rmeas(rng, V))
        alter = dict(ctx=lambda: rng.randbytes(7), nonce=lambda: rng.randbytes(16), rand=lambda: rng.randbytes(rand_size(V)), key=lambda: rng.randbytes(32))
        for (k, a) in enumerate(variations(rng, base, alter)):
            chains.append(pp_chain('%d.%d' % (z, k), inst, V, param=param, **a))
    play(rec, chains, scheds, phases)


def job_exact(rec, V, scheds):
    """Two reports interleaved, every message as the specification says."""
    rng = rec.rng
    c = Calls(rec, [V])
    n = shares_of(V)
    key, ctx = rng.randbytes(32), rng.randbytes(4)
    param = None
    if V['kind'] == 'poplar1':
        param = (V['bits'] - 1, prefixes_of(rng, V['bits'], V['bits'] - 1, 2))
    enc = c.insts[0].encode_agg_param(param)

    def report():
        m, nonce, rand = rmeas(rng, V), rng.randbytes(16), rng.randbytes(rand_size(V))
        rep = c.shard(ctx, m, nonce, rand)
        yield
        st = [c.init(key, ctx, i, enc, nonce, rep[0], rep[1][i]) for i in range(n)]
        yield
        while True:
            msg = c.combine(ctx, enc, st[0][0], [s[1] for s in st])
            st = [c.next(ctx, s[0], msg) for s in st]
            yield
            if st[0][0] == 'out':
                break
        yield
    for s in scheds:
        runs = {r: report() for r in {x[0] for x in s}}
        for (r, kind, _) in s:
            if kind == 'step':
                next(runs[r], None)
            elif kind == 'fail':
                c.shard(ctx, rmeas(rng, V), rng.randbytes(15), rng.randbytes(rand_size(V)))


def jobs_p24(tier, rng, scheds, phases):
    deep = tier == 'thorough'
    scheds = sorted(scheds)
    rng.shuffle(scheds)
    pos = [0]

    def take(k):
        out = [scheds[(pos[0] + i) % len(scheds)] for i in range(k)]
        pos[0] += k
        return out
    k = 40 if deep else 10
    jobs = []
    groups = [[prio3(2, SMALLC[0]), prio3(2, SMALLC[3])], [prio3(2, SMALLC[4]), prio3(3, SMALLC[4])], [prio3(2, SMALLC[7]), prio3(2, SMALLC[8])],
              [prio3(2, SMALLC[9]), prio3(2, SMALLC[10])], [prio3(2, SMALLC[1]), prio3(3, SMALLC[2])], [poplar1(4), poplar1(5)], [poplar1(9), poplar1(1)],
              [poplar1(3), prio3(2, SMALLC[3])], [prio3(4, SMALLC[3]), prio3(2, SMALLC[6])]]
    ms = multi(rng)
    groups += [[a, b] for (a, b) in zip(ms[::2], ms[1::2])]
    for z in range(3 if deep else 1):
        for (i, g) in enumerate(groups):
            jobs.append(('vdaf%d.%d' % (i, z), job_vdaf, dict(Vs=g, scheds=take(k), phases=phases)))
        cs = SMALLC + [circ('Poly', 'F64', 3, poly=(0, 2, -3, 1)), circ('PolySum', 'F96', 5, 2, poly=(0, -1, 1)), circ('Chain', 'F128', 2, poly=(0, -1, 0, 1)),
                       circ('Histogram', 'F64', 10, 3), circ('SumVec', 'F64', 4, 3, 5), circ('Multihot', 'F96', 5, 2, 3), circ('Poly', 'F64', 5, poly=(0, 2, -3, 1))]
        rng.shuffle(cs)
        for i in range(0, len(cs), 3):
            jobs.append(('flp%d.%d' % (i, z), job_flp, dict(Cs=cs[i:i + 3], scheds=take(k), phases=phases)))
        # kin: instances of one class that differ in a single parameter
        kin = [[circ(n, f, 4, ch, mx) for (f, ch, mx) in (('F64', 2, 2), ('F128', 2, 2), ('F96', 2, 2), ('F128', 3, 2), ('F128', 2, 3))]
               for n in ('SumVec', 'Multihot')]
        kin += [[circ('Histogram', f, ln, ch) for (f, ln, ch) in (('F128', 4, 2), ('F64', 4, 2), ('F96', 4, 2), ('F128', 5, 2), ('F128', 4, 3))],
                [circ('Sum', f, mx=mx) for (f, mx) in (('F64', 4), ('F128', 4), ('F96', 4), ('F64', 5), ('F64', 9))],
                [circ('Count', f) for f in ('F64', 'F128', 'F96')],
                [circ('Poly', f, ln, poly=p) for (f, ln, p) in (('F64', 2, (0, -1, 1)), ('F128', 2, (0, -1, 1)), ('F64', 3, (0, -1, 1)), ('F64', 2, (0, 2, -3, 1)))]]
        for (i, cs) in enumerate(kin):
            rng.shuffle(cs)
            jobs.append(('kin%d.%d' % (i, z), job_flp, dict(Cs=cs, scheds=take(k), phases=phases)))
        vkin = [[prio3(3, circ('Histogram', 'F128', 4, 2)), prio3(3, circ('Histogram', 'F64', 4, 2)), prio3(4, circ('Histogram', 'F128', 4, 2))],
                [prio3(2, circ('Histogram', 'F128', 4, 2), ident=i) for i in (4, 0x104, 0x80000004)],
                [prio3(2, circ('SumVec', 'F64', 2, 2, 3), q) for q in (1, 2, 3)],
                [prio3(2, circ('Sum', 'F64', mx=b)) for b in (7, 8, 6)],
                [poplar1(3), poplar1(3, 0x106), poplar1(4)],
                [prio3(5, circ('Multihot', f, 4, 2, 2)) for f in ('F64', 'F96', 'F128')]]
        for (i, g) in enumerate(vkin):
            rng.shuffle(g)
            jobs.append(('vkin%d.%d' % (i, z), job_vdaf, dict(Vs=g, scheds=take(k), phases=phases)))
        for (i, s) in enumerate(([(1, 1), (2, 2)], [(5, 2), (5, 1)], [(9, 2)], [(16, 3)], [(4, 2), (8, 2)])):
            jobs.append(('idpf%d.%d' % (i, z), job_idpf, dict(shapes=s, scheds=take(k), phases=phases)))
        jobs.append(('algebra%d' % z, job_algebra, dict(scheds=take(2 * k), phases=phases)))
        jobs.append(('xof%d' % z, job_xof, dict(scheds=take(2 * k), phases=phases)))
        for (i, g) in enumerate(([prio3(2, SMALLC[3]), poplar1(4)], [prio3(2, SMALLC[4]), toy(3)], [toy(4), poplar1(2)])):
            jobs.append(('pp%d.%d' % (i, z), job_pp, dict(Vs=g, scheds=take(k), phases=phases)))
        for (i, V) in enumerate([prio3(2, SMALLC[0]), prio3(2, SMALLC[3]), prio3(2, SMALLC[4]), prio3(3, SMALLC[7]), poplar1(3), ms[1], ms[5]]):
            jobs.append(('exact%d.%d' % (i, z), job_exact, dict(V=V, scheds=take(6 if deep else 2))))
    return jobs
