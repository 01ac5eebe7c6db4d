"""Whole executions with deviating clients, networks and aggregators; see
spec/Scenario.tla."""

import inspect

from vd import *


class Direct:
    """A value passed to an operation without going through a decoder."""

    def __init__(self, data):
        self.data = data

    def vec(self, inst, st):
        F = inst.idpf.current_field(st[1])
        k = F.ENCODED_SIZE
        return [F(int.from_bytes(self.data[i:i + k], 'little')) for i in range(0, len(self.data), k)]

    def message(self, V, inst, st):
        if self.data is None or V['kind'] != 'poplar1':
            return self.data
        return self.vec(inst, st)

    def share(self, V, inst, st):
        if V['kind'] == 'poplar1':
            return self.vec(inst, st)
        # Prio3: the elements (any number of them), and no joint randomness part
        F = inst.flp.field
        k = F.ENCODED_SIZE
        return ([F(int.from_bytes(self.data[i:i + k], 'little')) for i in range(0, len(self.data), k)], None)


def edit_one(b, e, old):
    op = e['op']
    if op == 'none':
        return Direct(None)
    if op == 'direct':
        return Direct(bytes(e['data']))
    if op == 'xor':
        if not b:
            return b
        b = bytearray(b)
        b[e['pos'] % len(b)] ^= e['val']
        return bytes(b)
    if op == 'set':
        return bytes(e['data'])
    if op == 'put':
        p, d = e['pos'], bytes(e['data'])
        return (b[:p] + d + b[p + len(d):])[:len(b)]
    if op == 'trunc':
        return b[:max(0, len(b) - e['pos'])]
    if op == 'append':
        return b + bytes(e['data'])
    if op == 'old':
        return old[e['pos'] - 1]
    return b


def apply(vals, edits, at, rnd, old):
    for e in edits:
        if e['at'] != at or e['round'] != rnd:
            continue
        if e['op'] == 'sel':
            vals = [vals[k - 1] for k in e['sel']]
        else:
            vals = [edit_one(v, e, old) if e['i'] in (0, k + 1) else v for (k, v) in enumerate(vals)]
    return vals


def edit(at, op, i=0, rnd=None, pos=0, val=0, data=b'', sel=()):
    if rnd is None:
        rnd = 0 if at in ('public', 'input') else 1
    return {'at': at, 'op': op, 'i': i, 'round': rnd, 'pos': pos, 'val': val, 'data': J(data), 'sel': list(sel)}


def honest_sc(V, rng, m, key=None, ctx=None, param=b'', n=None, nonce=None, rand=None):
    """The scenario in which everybody follows the protocol."""
    nonce = nonce if nonce is not None else rng.randbytes(16)
    ctx = ctx if ctx is not None else rng.randbytes(rng.choice((0, 1, 5, 30)))
    key = key if key is not None else rng.randbytes(key_size(V))
    n = n or shares_of(V)
    return {
        'cv': 1, 'comb': 1,
        'client': {'ctx': J(ctx), 'm': jmeas(V, m), 'nonce': J(nonce),
                   'rand': J(rand if rand is not None else rng.randbytes(rand_size(V)))},
        'aggs': [{'v': 1, 'key': J(key), 'ctx': J(ctx), 'id': i, 'param': J(param), 'nonce': J(nonce)}
                 for i in range(n)],
        'edits': [],
        '_m': m,
    }


def evil_shard(inst, V, cl, m):
    """The code's sharding by a client that does not encode a permitted
    measurement."""
    ctx, nonce, rand = bytes(cl['ctx']), bytes(cl['nonce']), bytes(cl['rand'])
    if 'vec' in cl:
        F = inst.flp.field
        vec = [F(int.from_bytes(bytes(x), 'little')) for x in cl['vec']]
        inst.flp.encode = lambda *a: list(vec)
        inst.flp.valid.encode = lambda *a: list(vec)
        try:
            return inst.shard(ctx, m, nonce, rand)
        finally:
            del inst.flp.encode, inst.flp.valid.encode
    orig = inst.idpf.gen
    sig = inspect.signature(orig)

    def gen(*a, **k):
        b = sig.bind(*a, **k)
        inner, leaf = b.arguments['beta_inner'], b.arguments['beta_leaf']
        out = []
        for (lv, (_, kk)) in enumerate(list(inner) + [leaf]):
            F = type(kk)
            d = F(int.from_bytes(bytes(cl['beta']['d'][lv]), 'little'))
            e = F(int.from_bytes(bytes(cl['beta']['e'][lv]), 'little'))
            out.append([d, kk * d + e])
        b.arguments['beta_inner'] = out[:-1]
        b.arguments['beta_leaf'] = out[-1]
        return orig(*b.args, **b.kwargs)
    inst.idpf.gen = gen
    try:
        return inst.shard(ctx, m, nonce, rand)
    finally:
        del inst.idpf.gen


def given(idpf, values):
    """Evaluation of a point function with these values."""
    sig = inspect.signature(idpf.eval)

    def ev(*a, **k):
        F = idpf.current_field(sig.bind(*a, **k).arguments['level'])
        return [[F(int.from_bytes(bytes(x), 'little')) for x in y] for y in values]
    return ev


def auth_keys(inst, sc):
    """The authenticators that the client of a scenario programs."""
    keys = []
    orig = inst.idpf.gen
    sig = inspect.signature(orig)

    def gen(*a, **k):
        b = sig.bind(*a, **k)
        keys.extend(list(b.arguments['beta_inner']) + [b.arguments['beta_leaf']])
        return orig(*a, **k)
    inst.idpf.gen = gen
    try:
        cl = sc['client']
        inst.shard(bytes(cl['ctx']), sc['_m'], bytes(cl['nonce']), bytes(cl['rand']))
    finally:
        del inst.idpf.gen
    return [k[1].int() for k in keys]


def drive(insts, Vs, sc, grab=None):
    """Run the scenario with the code; which aggregators obtain an output
    share.  grab, if given, collects the messages delivered."""
    n = len(sc['aggs'])
    fail = [False] * n
    cl = sc['client']
    g = grab if grab is not None else {}
    ci = insts[sc['cv'] - 1]
    try:
        if 'vec' in cl or 'beta' in cl:
            (p, ins) = evil_shard(ci, Vs[sc['cv'] - 1], cl, sc['_m'])
        else:
            (p, ins) = ci.shard(bytes(cl['ctx']), sc['_m'], bytes(cl['nonce']), bytes(cl['rand']))
        pub = ci.encode_public_share(p)
        inp = [ci.encode_input_share(s) for s in ins]
    except Exception:
        return fail
    g['public'], g['inputs'] = pub, inp
    pubs = apply([pub] * n, sc['edits'], 'public', 0, [])
    inps = apply(inp, sc['edits'], 'input', 0, [])
    states, shares = [], []
    try:
        for (i, a) in enumerate(sc['aggs']):
            inst = insts[a['v'] - 1]
            if 'evals' in sc:
                inst.idpf.eval = given(inst.idpf, sc['evals'][i])
            try:
                (s, v) = inst.verify_init(
                    bytes(a['key']), bytes(a['ctx']), a['id'], inst.decode_agg_param(bytes(a['param'])),
                    bytes(a['nonce']), inst.decode_public_share(pubs[i]), inst.decode_input_share(a['id'], inps[i]))
            finally:
                if 'evals' in sc:
                    del inst.idpf.eval
            states.append(s)
            shares.append(inst.encode_verifier_share(v))
    except Exception:
        return fail
    rnd, old = 1, []
    ca = sc['aggs'][sc['comb'] - 1]
    inst = insts[ca['v'] - 1]
    g['shares'], g['msgs'], g['outs'] = [], [], [None] * n
    while True:
        g['shares'].append(shares)
        delivered = apply(shares, sc['edits'], 'share', rnd, old)
        try:
            st = states[sc['comb'] - 1]
            m = inst.encode_verifier_message(inst.verifier_shares_to_message(
                bytes(ca['ctx']), inst.decode_agg_param(bytes(ca['param'])),
                [s.share(Vs[ca['v'] - 1], inst, st) if isinstance(s, Direct) else inst.decode_verifier_share(st, s) for s in delivered]))
        except Exception:
            return fail
        g['msgs'].append(m)
        msgs = apply([m] * n, sc['edits'], 'msg', rnd, delivered)
        got = []
        for (i, a) in enumerate(sc['aggs']):
            ai = insts[a['v'] - 1]
            try:
                d = msgs[i]
                d = d.message(Vs[a['v'] - 1], ai, states[i]) if isinstance(d, Direct) else ai.decode_verifier_message(states[i], d)
                r = ai.verify_next(bytes(a['ctx']), states[i], d)
            except Exception:
                r = None
            got.append(r)
        if any(isinstance(r, tuple) for r in got):
            if not all(isinstance(r, tuple) for r in got):
                return [r is not None and not isinstance(r, tuple) for r in got]
            states = [r[0] for r in got]
            try:
                shares = [insts[a['v'] - 1].encode_verifier_share(r[1]) for (a, r) in zip(sc['aggs'], got)]
            except Exception:
                return fail
            rnd, old = rnd + 1, delivered
            continue
        g['outs'] = got
        return [r is not None for r in got]


class Scenarios:
    """Recorded scenarios sharing instances.  part: the fraction of the
    scenarios to run (those whose messages are wanted are always run)."""

    def __init__(self, rec, Vs, part=1.0):
        self.rec = rec
        self.part = part
        self.Vs = Vs
        rec.extra['Vs'] = Vs
        self.insts = [make(V) for V in Vs]

    def run(self, sc, what, grab=None):
        if grab is None and self.part < 1 and self.rec.rng.random() > self.part:
            return None
        out = drive(self.insts, self.Vs, sc, grab)
        self.rec.add('scn', what=what, out=out, sc={k: v for (k, v) in sc.items() if k[0] != '_'})
        return out


def ideal(rec, V, key, ctx, param, ms):
    """An honest batch; only acceptance and the result are recorded."""
    inst = make(V)
    n = shares_of(V)
    enc = inst.encode_agg_param(param)
    accepted = []
    aggs = [inst.agg_init(param) for _ in range(n)]
    for m in ms:
        sc = honest_sc(V, rec.rng, m, key=key, ctx=ctx, param=enc)
        g = {}
        out = drive([inst], [V], sc, g)
        accepted.append(all(out))
        if all(out):
            aggs = [inst.agg_update(param, a, o) for (a, o) in zip(aggs, g['outs'])]
    r = res(lambda: inst.unshard(param, aggs, len(ms)), lambda x: jresult(V, x))
    rec.extra['Vs'] = [V]
    rec.add('ideal', v=1, param=jparam(V, param), ms=[jmeas(V, m) for m in ms], accepted=accepted, result=r)
