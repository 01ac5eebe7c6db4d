"""Codecs: P22, P23."""

from cat3 import *
from gen_pop import lfield, rbits, some_prefixes, BITS


class Codec:
    def __init__(self, rec, V, param=None):
        self.rec, self.V, self.param = rec, V, param
        rec.extra['Vs'] = [V]
        self.inst = make(V)
        self.penc = self.inst.encode_agg_param(param)

    def decoder(self, what, agg_id, state):
        i = self.inst
        return {'public': (i.decode_public_share, i.encode_public_share),
                'input': (lambda b: i.decode_input_share(agg_id, b), i.encode_input_share),
                'share': (lambda b: i.decode_verifier_share(state, b), i.encode_verifier_share),
                'message': (lambda b: i.decode_verifier_message(state, b), i.encode_verifier_message),
                'out': (lambda b: i.decode_out_share(self.param, b), i.encode_out_share),
                'agg': (lambda b: i.decode_agg_share(self.param, b), i.encode_agg_share),
                'param': (i.decode_agg_param, i.encode_agg_param)}[what]

    def dec(self, what, enc, how, agg_id=0, state=None, rnd=0, level=0):
        (d, e) = self.decoder(what, agg_id, state)
        ev = dict(op='dec', v=1, what=what, enc=J(enc), how=how, id=agg_id, st={'round': rnd, 'level': level}, param=J(self.penc),
                  ok=True, re=[], val=[])
        try:
            v = d(enc)
        except Exception:
            ev['ok'] = False
        else:
            try:
                ev['re'] = J(e(v))
                if what == 'param' and self.V['kind'] == 'poplar1':
                    ev['val'] = jparam(self.V, v)
            except Exception:
                ev['re'] = [-1]
        self.rec.add('codec', **ev)

    def back(self, what, value, agg_id=0, state=None):
        """decode(encode(value)) = value"""
        (d, e) = self.decoder(what, agg_id, state)
        try:
            eq = bool(d(e(value)) == value)
        except Exception:
            eq = False
        self.rec.add('codec', op='round', v=1, what=what, eq=eq)

    def vary(self, what, enc, fields, **kw):
        """Everything that may go wrong with an encoding.  fields: (offset,
        field name, count) of the field vectors in it."""
        rng = self.rec.rng
        self.dec(what, enc, 'honest', **kw)
        n = len(enc)
        if n > 8000:
            # few of the long ones
            for d in (1, 8, n // 2):
                self.dec(what, enc[:n - d], 'cut by %d' % d, **kw)
            self.dec(what, enc + b'\0', 'followed by a byte', **kw)
            for (off, f, count) in fields:
                s, p = fsize(f), PRIME[f][0]
                for k in borders(count)[::3] if count > 3 else range(count):
                    o = off + k * s
                    self.dec(what, enc[:o] + p.to_bytes(s, 'little') + enc[o + s:], 'element %d is the modulus' % k, **kw)
            return
        for k in sorted({0, 1, n - 1, n - 8, n - 16, n - 32, n // 2, rng.randint(0, n)}):
            if 0 <= k < n:
                self.dec(what, enc[:k], 'cut to %d bytes' % k, **kw)
                self.dec(what, enc[n - k:], 'last %d bytes' % k, **kw)
        for k in (1, 2, 8, 16, 24, 32, 64, n):
            self.dec(what, enc + bytes(k), 'followed by %d zero bytes' % k, **kw)
        self.dec(what, enc + rng.randbytes(rng.choice((1, 8, 16, 32))), 'followed by random bytes', **kw)
        self.dec(what, b'\0' + enc, 'preceded by a byte', **kw)
        for _ in range(2):
            self.dec(what, rng.randbytes(n), 'random', **kw)
        self.dec(what, bytes(n), 'zeros', **kw)
        self.dec(what, b'\xff' * n, 'ones', **kw)
        for (off, f, count) in fields:
            s, p = fsize(f), PRIME[f][0]
            for k in (sorted({0, count - 1, rng.randrange(count)} if count else ()) if count < 60 else borders(count)[::2]):
                for v in (p - 1, p, p + 1, 256 ** s - 1, 256 ** s - rng.randint(1, 1000), rng.randrange(p), 0)[:7 if count < 60 else 2]:
                    o = off + k * s
                    self.dec(what, enc[:o] + v.to_bytes(s, 'little') + enc[o + s:], 'element %d is %d' % (k, v), **kw)


def prio3_codecs(rec, V):
    C = Codec(rec, V)
    inst, rng = C.inst, rec.rng
    f = V['circuit']['field']
    s = fsize(f)
    ctx, nonce, key = b'ctx', rng.randbytes(16), rng.randbytes(32)
    n = V['shares']
    ml, pl = meas_len(V['circuit']), inst.flp.PROOF_LEN * V['proofs']
    vl, ol = inst.flp.VERIFIER_LEN * V['proofs'], inst.flp.OUTPUT_LEN
    (pub, inps) = inst.shard(ctx, rmeas(rng, V), nonce, rng.randbytes(rand_size(V)))
    st = [inst.verify_init(key, ctx, i, None, nonce, pub, inps[i]) for i in range(n)]
    msg = inst.verifier_shares_to_message(ctx, None, [x[1] for x in st])
    outs = [inst.verify_next(ctx, x[0], msg) for x in st]
    agg = inst.agg_update(None, inst.agg_init(None), outs[0])
    C.back('public', pub)
    C.vary('public', inst.encode_public_share(pub), [])
    for i in sorted({0, 1, n - 1}):
        C.back('input', inps[i], agg_id=i)
        C.vary('input', inst.encode_input_share(inps[i]), [(0, f, ml), (ml * s, f, pl)] if i == 0 else [], agg_id=i)
        C.dec('input', inst.encode_input_share(inps[0 if i else 1]), 'of another aggregator', agg_id=i)
        C.back('share', st[i][1], state=st[i][0])
        C.vary('share', inst.encode_verifier_share(st[i][1]), [(0, f, vl)], state=st[i][0])
        C.back('message', msg, state=st[i][0])
        C.back('out', outs[i])
    C.vary('message', inst.encode_verifier_message(msg), [], state=st[0][0])
    C.vary('out', inst.encode_out_share(outs[0]), [(0, f, ol)])
    C.back('agg', agg)
    C.vary('agg', inst.encode_agg_share(agg), [(0, f, ol)])
    C.back('param', None)
    for b in (b'', b'\0', b'\0' * 4, rng.randbytes(6)):
        C.dec('param', b, 'parameter')
    # the layout, byte for byte
    c = Calls(rec, [V])
    c.whole(key, ctx, None, [rmeas(rng, V)])


def p3_all_lengths(rec, V):
    """Every length of every message."""
    C = Codec(rec, V)
    inst, rng = C.inst, rec.rng
    nonce = rng.randbytes(16)
    (pub, inps) = inst.shard(b'', rmeas(rng, V), nonce, rng.randbytes(rand_size(V)))
    (st, sh) = inst.verify_init(bytes(32), b'', 0, None, nonce, pub, inps[0])
    top = len(inst.encode_input_share(inps[0])) + 70
    for k in range(top):
        for what in ('public', 'share', 'message', 'out', 'agg'):
            C.dec(what, bytes(k), '%d zero bytes' % k, state=st)
        C.dec('input', bytes(k), '%d zero bytes' % k, agg_id=0)
        C.dec('input', bytes(k), '%d zero bytes' % k, agg_id=1)


def jobs_p22(tier, rng):
    deep = tier == 'thorough'
    jobs = []
    cs = SMALLC + circuits(rng, tier)[::1 if deep else 4]
    for (i, c) in enumerate(cs):
        if meas_len(c) <= 70 or deep:
            jobs.append(('c%d-%s' % (i, c['name']), prio3_codecs, dict(V=prio3(rng.choice((2, 3, 4)), c))))
    for (i, c) in enumerate(LARGE):
        if i % 3 == 0 or deep:
            jobs.append(('large%d' % i, prio3_codecs, dict(V=prio3(2, c))))
    for (i, V) in enumerate(multi(rng)):
        jobs.append(('m%d' % i, prio3_codecs, dict(V=V)))
    for V in (prio3(255, circ('Histogram', 'F128', 1, 1)), prio3(130, circ('Count', 'F64')), prio3(2, circ('SumVec', 'F64', 1, 1, 1), 255),
              prio3(2, circ('SumVec', 'F64', 1, 2, 1), 129)):
        jobs.append(('big%d-%d' % (V['shares'], V['proofs']), prio3_codecs, dict(V=V)))
    for (i, V) in enumerate([prio3(2, circ('Count', 'F64')), prio3(3, circ('Histogram', 'F128', 1, 1)), prio3(2, circ('Sum', 'F64', mx=3)),
                             prio3(2, circ('SumVec', 'F64', 1, 1, 1), 2)]):
        jobs.append(('len%d' % i, p3_all_lengths, dict(V=V)))
    return jobs


def pop_codecs(rec, bits, level, n):
    V = poplar1(bits)
    rng = rec.rng
    m = rbits(rng, bits)
    param = (level, some_prefixes(rng, bits, level, n, m))
    C = Codec(rec, V, param)
    inst = C.inst
    f = lfield(bits, level)
    ctx, nonce, key = b'ctx', rng.randbytes(16), rng.randbytes(32)
    (pub, inps) = inst.shard(ctx, m, nonce, rng.randbytes(128))
    st = [inst.verify_init(key, ctx, i, param, nonce, pub, inps[i]) for i in (0, 1)]
    msg = inst.verifier_shares_to_message(ctx, param, [x[1] for x in st])
    st2 = [inst.verify_next(ctx, x[0], msg) for x in st]
    msg2 = inst.verifier_shares_to_message(ctx, param, [x[1] for x in st2])
    outs = [inst.verify_next(ctx, x[0], msg2) for x in st2]
    agg = inst.agg_update(param, inst.agg_init(param), outs[0])
    nc = (2 * bits + 7) // 8
    enc = inst.encode_public_share(pub)
    C.back('public', pub)
    C.vary('public', enc, [(nc + 16 * bits, 'F64', 2 * (bits - 1)), (nc + 16 * bits + 16 * (bits - 1), 'F255', 2)])
    for b in range(8):
        C.dec('public', enc[:nc - 1] + bytes([enc[nc - 1] ^ (1 << b)]) + enc[nc:], 'last control bits, bit %d' % b)
    for i in (0, 1):
        C.back('input', inps[i], agg_id=i)
        C.vary('input', inst.encode_input_share(inps[i]), [(48, 'F64', 2 * (bits - 1)), (48 + 16 * (bits - 1), 'F255', 2)], agg_id=i)
        for (r, s, x) in ((1, st[i], 3), (2, st2[i], 1)):
            C.back('share', s[1], state=s[0])
            C.vary('share', inst.encode_verifier_share(s[1]), [(0, f, x)], state=s[0], rnd=r, level=level)
        C.dec('share', inst.encode_verifier_share(st[i][1]), 'of the first round in the second', state=st2[i][0], rnd=2, level=level)
        C.dec('share', inst.encode_verifier_share(st2[i][1]), 'of the second round in the first', state=st[i][0], rnd=1, level=level)
        C.back('message', msg, state=st[i][0])
        C.back('message', msg2, state=st2[i][0])
    C.vary('message', inst.encode_verifier_message(msg), [(0, f, 3)], state=st[0][0], rnd=1, level=level)
    C.vary('message', inst.encode_verifier_message(msg2), [], state=st2[0][0], rnd=2, level=level)
    C.dec('message', inst.encode_verifier_message(msg), 'of the first round in the second', state=st2[0][0], rnd=2, level=level)
    C.dec('message', b'', 'of the second round in the first', state=st[0][0], rnd=1, level=level)
    np = len(param[1])
    C.back('out', outs[0])
    C.vary('out', inst.encode_out_share(outs[0]), [(0, f, np)])
    C.back('agg', agg)
    C.vary('agg', inst.encode_agg_share(agg), [(0, f, np)])
    Calls(rec, [V]).whole(key, ctx, param, [m])


def enc_params(rec, bits, levels):
    """Aggregation parameters, well-formed and not."""
    V = poplar1(bits)
    C = Codec(rec, V, (0, ()))
    inst, rng = C.inst, rec.rng

    def enc(level, ps):
        out = res(lambda: inst.encode_agg_param((level, ps)), J)
        rec.add('codec', op='encparam', v=1, param={'level': level, 'prefixes': [[int(b) for b in p] for p in ps]}, out=out)
        return bytes(out['val']) if out['ok'] else None
    for level in levels:
        for n in (0, 1, 2, 5) + ((257, 300) if level in (9, 15, 31) else ()):
            ps = some_prefixes(rng, 10 ** 6, level, n, rbits(rng, level + 1))
            e = enc(level, ps)
            if e is None:
                continue
            if tuple(ps):
                C.back('param', (level, tuple(ps)))
            C.vary('param', e, [])
            w = (level + 8) // 8
            for k in range(len(ps)) if len(ps) < 20 else borders(len(ps))[::3]:
                # every bit of the last byte of a prefix
                o = 6 + (k + 1) * w - 1
                for b in range(8):
                    C.dec('param', e[:o] + bytes([e[o] ^ (1 << b)]) + e[o + 1:], 'last byte of prefix %d, bit %d' % (k, b))
            for d in (-1, 1, 256, 65536, 1 << 24):
                c = len(ps) + d
                if 0 <= c:
                    C.dec('param', e[:2] + c.to_bytes(4, 'big') + e[6:], 'count %d' % c)
            for lv in (level - 1, level + 1, level + 8, level ^ 256, 65535):
                if 0 <= lv < 65536:
                    C.dec('param', lv.to_bytes(2, 'big') + e[2:], 'level %d' % lv)
        p = rbits(rng, level + 1)
        q = rbits(rng, level + 1)
        for ps in ((p + (True,),), (p[:-1],), (p, q[:-1]), (p[:-1], q), (q, p + (False,)), ((),), (p, q, rbits(rng, level + 9)),
                   (p, p), (q, p, q)):
            enc(level, ps)
        for lv in (level + 1, level - 1, level + 8):
            enc(lv, (p,))
    for lv in (-1, 65536, 70000):
        enc(lv, ())
        enc(lv, (rbits(rng, max(0, lv + 1)),))
    if True:
        enc(65535, (rbits(rng, 65536),))


def all_params(rec, maxlevel):
    """Every set of prefixes of small levels."""
    V = poplar1(4)
    C = Codec(rec, V, (0, ()))
    inst = C.inst
    import itertools
    for level in range(maxlevel + 1):
        ps = list(itertools.product((False, True), repeat=level + 1))
        for mask in range(2 ** len(ps)):
            s = tuple(p for (i, p) in enumerate(ps) if mask >> i & 1)
            out = res(lambda: inst.encode_agg_param((level, s)), J)
            rec.add('codec', op='encparam', v=1, param={'level': level, 'prefixes': [[int(b) for b in p] for p in s]}, out=out)
            if out['ok']:
                C.dec('param', bytes(out['val']), 'all')
    # every string of length 6 to 8 of a small shape
    for a in range(0, 17):
        for n in (0, 1, 2):
            for x in range(256):
                C.dec('param', bytes([0, a, 0, 0, 0, n, x]), 'short')


def jobs_p23(tier, rng):
    deep = tier == 'thorough'
    jobs = []
    for bits in [1, 2, 3, 4, 5, 8, 9, 16, 17] + ([31, 32, 33, 64, 65, 127, 128, 129, 256, 257, 300] if deep else [33, 257, 513]):
        for level in sorted({0, bits - 1, max(0, bits - 2), rng.randrange(bits)}) if bits < 500 else (511,):
            jobs.append(('c%d-%d' % (bits, level), pop_codecs, dict(bits=bits, level=level, n=rng.choice((0, 1, 2, 3, 5)))))
    lv = [0, 1, 2, 6, 7, 8, 9, 14, 15, 16, 17, 23, 24, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1000]
    for (j, bits) in enumerate((1, 8, 9, 256, 300)):
        jobs.append(('params%d' % bits, enc_params, dict(bits=bits, levels=lv[j::5] if not deep else lv)))
    for n in (65, 257):
        jobs.append(('wide%d' % n, pop_codecs, dict(bits=10, level=9, n=n)))
        jobs.append(('widei%d' % n, pop_codecs, dict(bits=11, level=9, n=n)))
    jobs.append(('all', all_params, dict(maxlevel=2 if not deep else 3)))
    return jobs
