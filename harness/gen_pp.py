"""The ping-pong topology: P19, P20, P21."""

import itertools

import core
from cat3 import *
from gen_pop import rbits, some_prefixes
from scn import drive, honest_sc
from vdaf_poc import vdaf_ping_pong as pp


class Party:
    """Recorded ping-pong calls.  States are kept by number."""

    def __init__(self, rec, V, inst=None):
        self.rec, self.V = rec, V
        rec.extra.setdefault('Vs', []).append(V)
        self.v = len(rec.extra['Vs'])
        self.inst = inst or make(V, pingpong=True)
        self.states = rec.extra.setdefault('_states', [])

    def view(self, s):
        tags = {pp.Continued: 'continued', pp.Finished: 'finished', pp.FinishedWithOutbound: 'finished_outbound', pp.Rejected: 'rejected'}
        t = tags.get(type(s), type(s).__name__)
        out = []
        if t in ('finished', 'finished_outbound'):
            try:
                # whatever encodes it; the code's own encoders are judged elsewhere
                out = J(self.inst.encode_out_share(s.out_share))
            except Exception:
                out = [-1]
        return {'tag': t, 'outbound': J(s.outbound) if t in ('continued', 'finished_outbound') else [], 'out': out}

    def record(self, op, fn, **fields):
        try:
            s = fn()
            out = self.view(s)
        except Exception as e:
            s, out = None, {'tag': 'raised', 'outbound': [], 'out': [], 'err': type(e).__name__}
        self.rec.add('pp', op=op, v=self.v, out=out, **fields)
        self.states.append(s)
        return len(self.states)

    def linit(self, a):
        (key, ctx, param, nonce, public, inp) = a
        return self.record('linit', lambda: self.inst.ping_pong_leader_init(*a),
                           key=J(key), ctx=J(ctx), param=J(param), nonce=J(nonce), public=J(public), input=J(inp))

    def hinit(self, a, inbound):
        (key, ctx, param, nonce, public, inp) = a
        return self.record('hinit', lambda: self.inst.ping_pong_helper_init(*a, inbound),
                           key=J(key), ctx=J(ctx), param=J(param), nonce=J(nonce), public=J(public), input=J(inp), inbound=J(inbound))

    def cont(self, leader, ctx, param, frm, inbound):
        s = self.states[frm - 1] if frm else pp.Start()
        if s is None:
            s = pp.Rejected()
        f = self.inst.ping_pong_leader_continued if leader else self.inst.ping_pong_helper_continued
        return self.record('cont', lambda: f(ctx, param, s, inbound),
                           leader=leader, ctx=J(ctx), param=J(param), inbound=J(inbound), **{'from': frm})

    def tag(self, n):
        return self.rec.ev[-1]['out']['tag'] if n == len(self.states) else None

    def outbound(self, n):
        return getattr(self.states[n - 1], 'outbound', None)


class Report:
    """The stored inputs of both parties for one report."""

    def __init__(self, rng, V, inst, param, key=None, m=None, ctx=None, nonce=None):
        self.V, self.param = V, param
        self.ctx = ctx if ctx is not None else rng.choice((b'', b'c', rng.randbytes(rng.choice(LENS))))
        self.key = key or rng.randbytes(key_size(V))
        self.nonce = nonce or rng.randbytes(16)
        self.m = m if m is not None else rmeas(rng, V)
        self.rand = rng.randbytes(rand_size(V))
        (p, ins) = inst.shard(self.ctx, self.m, self.nonce, self.rand)
        self.public = inst.encode_public_share(p)
        self.inputs = [inst.encode_input_share(i) for i in ins]

    def args(self, i, **over):
        d = dict(key=self.key, ctx=self.ctx, param=self.param, nonce=self.nonce, public=self.public, input=self.inputs[i])
        d.update(over)
        return (d['key'], d['ctx'], d['param'], d['nonce'], d['public'], d['input'])


def exchange(P, R, tamper=None, limit=1000):
    """An exchange over report R: (leader state, helper state, messages,
    states on the way).  tamper(i, message) alters the i-th message."""
    tamper = tamper or (lambda i, m: m)
    l = P.linit(R.args(0))
    path = [('leader', 0, None, l)]
    msgs = 0
    h = 0
    turn = 'helper'
    msg = P.outbound(l)
    while msg is not None and msgs < limit:
        m = tamper(msgs, msg)
        msgs += 1
        if turn == 'helper':
            frm = h
            h = P.hinit(R.args(1), m) if h == 0 else P.cont(False, R.ctx, R.param, h, m)
            path.append(('helper', frm, m, h))
            msg = P.outbound(h)
            turn = 'leader'
            if P.outbound(l) is None or type(P.states[l - 1]) is not pp.Continued:
                break
        else:
            frm = l
            l = P.cont(True, R.ctx, R.param, l, m)
            path.append(('leader', frm, m, l))
            msg = P.outbound(l)
            turn = 'helper'
            if type(P.states[h - 1]) is not pp.Continued:
                break
    return (l, h, msgs, path)


def direct(inst, V, R):
    """Output shares of a direct execution."""
    out = []
    states, shares = [], []
    param = inst.decode_agg_param(R.param)
    for i in (0, 1):
        (s, v) = inst.verify_init(R.key, R.ctx, i, param, R.nonce, inst.decode_public_share(R.public), inst.decode_input_share(i, R.inputs[i]))
        states.append(s)
        shares.append(v)
    while True:
        m = inst.verifier_shares_to_message(R.ctx, param, shares)
        got = [inst.verify_next(R.ctx, s, m) for s in states]
        if not isinstance(got[0], tuple):
            return [J(inst.encode_out_share(o)) for o in got]
        states, shares = [g[0] for g in got], [g[1] for g in got]


def honest(P, R):
    (l, h, msgs, path) = exchange(P, R)
    try:
        outs = direct(P.inst, P.V, R)
    except Exception:
        outs = []
    P.rec.add('pp', op='done', v=P.v, l=l, h=h, msgs=msgs, outs=outs)
    return path


def job_mixed(rec, V, params, n, same=()):
    """Exchanges over several reports under way at the same time, with
    different parameters and contexts.  same: what they have in common."""
    P = Party(rec, V)
    rng = rec.rng
    over = {}
    if 'key' in same:
        over['key'] = rng.randbytes(key_size(V))
    if 'nonce' in same:
        over['nonce'] = rng.randbytes(16)
    if 'ctx' in same:
        over['ctx'] = rng.randbytes(3)
    Rs = [Report(rng, V, P.inst, params[k % len(params)], **over) for k in range(n)]
    at = [dict(R=R, l=0, h=0, msgs=0, turn='leader', msg=b'') for R in Rs]
    live = list(at)
    while live:
        x = rng.choice(live)
        R = x['R']
        if x['l'] == 0:
            x['l'] = P.linit(R.args(0))
            x['msg'] = P.outbound(x['l'])
        elif x['turn'] == 'helper':
            x['h'] = P.hinit(R.args(1), x['msg']) if x['h'] == 0 else P.cont(False, R.ctx, R.param, x['h'], x['msg'])
            x['msg'] = P.outbound(x['h'])
            x['msgs'] += 1
        else:
            x['l'] = P.cont(True, R.ctx, R.param, x['l'], x['msg'])
            x['msg'] = P.outbound(x['l'])
            x['msgs'] += 1
        x['turn'] = 'helper' if x['turn'] == 'leader' else 'leader'
        to = P.states[x['h'] - 1] if x['turn'] == 'helper' and x['h'] else P.states[x['l'] - 1] if x['turn'] == 'leader' else None
        if x['msg'] is None or to is not None and type(to) is not pp.Continued:
            live.remove(x)
            try:
                outs = direct(P.inst, V, R)
            except Exception:
                outs = []
            rec.add('pp', op='done', v=P.v, l=x['l'], h=x['h'], msgs=x['msgs'], outs=outs)
    clean(rec)


def clean(rec):
    rec.extra.pop('_states', None)


def two_party(rng):
    """Two-party instances with an aggregation parameter."""
    out = [(prio3(2, c), b'') for c in SMALLC]
    out += [(V, b'') for V in multi(rng) if V['shares'] == 2]
    return out


def poplars(rng, bitss, none=False):
    out = []
    for bits in bitss:
        V = poplar1(bits)
        inst = make(V)
        for level in sorted({0, 1, bits // 2, bits - 2, bits - 1}):
            if 0 <= level < bits:
                m = rbits(rng, bits)
                ps = tuple(sorted(some_prefixes(rng, bits, level, rng.randint(1, 4), m)))
                out.append((V, inst.encode_agg_param((level, ps)), m))
                if none:
                    out.append((V, inst.encode_agg_param((level, ())), m))
    return out


def job_honest(rec, V, param, n, m=None):
    P = Party(rec, V)
    for k in range(n):
        honest(P, Report(rec.rng, V, P.inst, param, m=m if k == 0 else None))
    clean(rec)


def job_invalid(rec, V, param, n):
    """Reports that fail verification."""
    P = Party(rec, V)
    rng = rec.rng
    for _ in range(n):
        R = Report(rng, V, P.inst, param)
        i = rng.randrange(2)
        b = bytearray(R.inputs[i])
        if not b:
            continue
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        R.inputs[i] = bytes(b)
        exchange(P, R)
        R = Report(rng, V, P.inst, param)
        if R.public:
            b = bytearray(R.public)
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            R.public = bytes(b)
            exchange(P, R)
        R = Report(rng, V, P.inst, param)
        R.inputs = R.inputs[::-1]
        exchange(P, R)
    clean(rec)


def jobs_p19(tier, rng):
    deep = tier == 'thorough'
    jobs = []
    for r in range(1, 21 if deep else 13):
        jobs.append(('toy%d' % r, job_honest, dict(V=toy(r), param=rng.randbytes(r % 4), n=10 if deep else 3)))
        jobs.append(('toybad%d' % r, job_invalid, dict(V=toy(r), param=rng.randbytes(r % 4), n=10 if deep else 3)))
    for r in (16, 17, 32, 33, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300) + ((511, 512, 513, 600) if deep else ()):
        jobs.append(('toys%d' % r, job_honest, dict(V=toy(r), param=rng.randbytes(r % 4), n=1)))
        jobs.append(('toysbad%d' % r, job_invalid, dict(V=toy(r), param=rng.randbytes(r % 4), n=1)))
    for (i, (V, p)) in enumerate(two_party(rng)):
        jobs.append(('prio%d' % i, job_honest, dict(V=V, param=p, n=10 if deep else 2)))
        jobs.append(('priobad%d' % i, job_invalid, dict(V=V, param=p, n=10 if deep else 2)))
    for (i, (V, p, m)) in enumerate(poplars(rng, (1, 2, 3, 8, 9, 33, 64) + ((256, 300) if deep else (257,)), True)):
        jobs.append(('poplar%d' % i, job_honest, dict(V=V, param=p, n=6 if deep else 2, m=m)))
        jobs.append(('poplarbad%d' % i, job_invalid, dict(V=V, param=p, n=6 if deep else 1)))
    for (i, same) in enumerate(((), ('key',), ('key', 'nonce'), ('key', 'nonce', 'ctx'), ('nonce', 'ctx'))):
        for r in (1, 2, 3, 4, 7):
            jobs.append(('mix%d.%d' % (i, r), job_mixed, dict(V=toy(r), params=[b'', b'\1', b'\2\3', b'\xff' * 3], n=9, same=same)))
        for c in (0, 3, 4, 7):
            jobs.append(('mixprio%d.%d' % (i, c), job_mixed, dict(V=prio3(2, SMALLC[c]), params=[b''], n=4, same=same)))
        for bits in (2, 5, 9):
            ps = [p for (_, p, _) in poplars(rng, (bits,), True)]
            rng.shuffle(ps)
            jobs.append(('mixpop%d.%d' % (i, bits), job_mixed, dict(V=poplar1(bits), params=ps, n=6, same=same)))
    return jobs


##
# P20
#

def job_model(rec, rounds, hists):
    """Behaviours of spec/PingPongModel.tla."""
    V = toy(rounds)
    P = Party(rec, V)
    for h in hists:
        a = [(b'', b'', b'', b'', b'', bytes(x)) for x in ((1, 2), (3, 4))]
        cur = {'leader': P.linit(a[0]), 'helper': 0}
        for d in h:
            who, m = d['to'], bytes(d['msg'])
            frm = cur[who]
            n = P.hinit(a[1], m) if who == 'helper' and frm == 0 else P.cont(who == 'leader', b'', b'', frm, m)
            # a party that is done keeps its result
            if frm == 0 or type(P.states[frm - 1]) is pp.Continued:
                cur[who] = n
    clean(rec)


def mutate(rng, m, others, n):
    """Altered versions of a message."""
    out = [b'', m + b'\0', m[:-1], m[1:], m + m, b'\0' * len(m), m[:1], m[:5]]
    for t in (0, 1, 2, 3, 255):
        out.append(bytes([t]) + m[1:])
    ks = list(range(5)) + [len(m) - 1] + [rng.randrange(len(m)) for _ in range(n)]
    for k in ks:
        if k < len(m):
            b = bytearray(m)
            b[k] ^= 1 << rng.randrange(8)
            out.append(bytes(b))
    for _ in range(n):
        k = rng.randrange(len(m) + 1)
        out.append(m[:k])
        b = bytearray(m)
        b[k % len(m)] = 255
        out.append(bytes(b))
    # re-framed items
    try:
        items = reframe(m)
    except Exception:
        items = []
    for x in items:
        out += [frame(0, x), frame(2, x), frame(1, x, x), frame(1, x, b''), frame(1, b'', x), frame(2, x, x), frame(2, x + b'\0'), frame(2, x[:-1]),
                frame(0, x + b'\0'), frame(0, x[:-1])]
    if len(items) == 2:
        out += [frame(1, items[1], items[0]), frame(1, *items[:1]), frame(1, items[0], items[1][:-1]), frame(1, items[0], items[1] + b'\0'), frame(1, items[0], b'')]
    out += [frame(0, b''), frame(1, b'', b''), frame(2, b'')]
    return out + list(others)


def frame(t, *items):
    return bytes([t]) + b''.join(len(i).to_bytes(4, 'big') + i for i in items)


def reframe(m):
    out, k = [], 1
    while k < len(m):
        n = int.from_bytes(m[k:k + 4], 'big')
        out.append(m[k + 4:k + 4 + n])
        k += 4 + n
    return out


def job_attack(rec, V, param, n, m=None):
    """Every message of an exchange altered in many ways, delivered in every
    state to either party."""
    P = Party(rec, V)
    rng = rec.rng
    R = Report(rng, V, P.inst, param, m=m)
    S = Report(rng, V, P.inst, param, key=R.key, ctx=R.ctx)
    path = honest(P, R)
    other = honest(P, S)
    sent = [x[2] for x in path if x[2] is not None] + [x[2] for x in other if x[2] is not None]
    for (who, frm, msg, _) in path:
        if msg is None:
            continue
        for a in mutate(rng, msg, sent, n):
            if who == 'helper' and frm == 0:
                P.hinit(R.args(1), a)
            else:
                P.cont(who == 'leader', R.ctx, R.param, frm, a)
        # the right message for the wrong party, context, parameter
        if frm:
            P.cont(who != 'leader', R.ctx, R.param, frm, msg)
            P.cont(who == 'leader', R.ctx + b'x', R.param, frm, msg)
            for q in (b'', b'\0', R.param[:-1], R.param + b'\0', bytes(len(R.param))):
                P.cont(who == 'leader', R.ctx, q, frm, msg)
        else:
            for (i, name) in enumerate(('key', 'ctx', 'param', 'nonce', 'public', 'input')):
                good = R.args(1)[i]
                for b in bad_values(rng, good, name, V):
                    P.hinit(R.args(1, **{name: b}), msg)
            P.cont(False, R.ctx, R.param, 0, msg)
            P.cont(True, R.ctx, R.param, 0, msg)
    for (i, name) in enumerate(('key', 'ctx', 'param', 'nonce', 'public', 'input')):
        for b in bad_values(rng, R.args(0)[i], name, V):
            P.linit(R.args(0, **{name: b}))
    # terminal states: nothing advances them
    ends = {n for (_, _, _, n) in path if type(P.states[n - 1]) is not pp.Continued}
    ends |= {k + 1 for (k, s) in enumerate(P.states) if type(s) is pp.Rejected and rng.random() < 0.02}
    for e in ends:
        for msg in sent + [b'']:
            P.cont(True, R.ctx, R.param, e, msg)
            P.cont(False, R.ctx, R.param, e, msg)
    # states already used may be used again
    for (who, frm, msg, _) in path[::-1]:
        if msg is not None and frm:
            P.cont(who == 'leader', R.ctx, R.param, frm, msg)
    clean(rec)


def job_late(rec, rounds):
    """Altered messages late in a long exchange."""
    V = toy(rounds)
    P = Party(rec, V)
    rng = rec.rng
    R = Report(rng, V, P.inst, rng.randbytes(rounds % 4))
    path = honest(P, R)
    sent = [x[2] for x in path if x[2] is not None]
    for (who, frm, msg, _) in path[-4:]:
        if msg is None or not frm:
            continue
        for a in mutate(rng, msg, sent[-6:] + sent[:3], 2):
            P.cont(who == 'leader', R.ctx, R.param, frm, a)
        P.cont(who != 'leader', R.ctx, R.param, frm, msg)
    clean(rec)


def bad_values(rng, good, name, V):
    """Malformed stored inputs."""
    out = []
    if name in ('public', 'input', 'param'):
        out += [b'', b'\0', good + b'\0', good[:-1], good[1:], b'\xff' * len(good), bytes(len(good)), good + good]
        for _ in range(4):
            if good:
                b = bytearray(good)
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
                out.append(bytes(b))
                out.append(good[:rng.randrange(len(good))])
    elif name == 'ctx':
        out += [good + b'\0', b'other']
    elif name == 'nonce':
        # sizes other than the prescribed are outside the statement
        b = bytearray(good)
        b[rng.randrange(len(b))] ^= 1
        out.append(bytes(b))
    else:
        b = bytearray(good)
        b[rng.randrange(len(b))] ^= 1
        out.append(bytes(b))
    if name == 'param':
        # a parameter whose prefixes do not fit is outside the specification
        out = [b for b in out if V['kind'] != 'poplar1' or b in (b'', b'\0', good + b'\0', good[:-1]) or len(b) != len(good)]
    return out


def jobs_p20(tier, rng, models):
    deep = tier == 'thorough'
    jobs = []
    for (rounds, evil, hists) in models:
        hists = sorted(hists, key=str)
        limit = 20000 if deep else 2000
        if len(hists) > limit:
            hists = rng.sample(hists, limit)
        for i in range(0, len(hists), 50):
            jobs.append(('model%d.%d.%d' % (rounds, evil, i), job_model, dict(rounds=rounds, hists=hists[i:i + 50])))
    for r in range(1, 11 if deep else 7):
        jobs.append(('toy%d' % r, job_attack, dict(V=toy(r), param=rng.randbytes(r % 4), n=12 if deep else 4)))
    for r in (12, 17, 33):
        jobs.append(('toys%d' % r, job_attack, dict(V=toy(r), param=rng.randbytes(r % 4), n=8 if deep else 1)))
    for r in (64, 128, 255, 256, 257, 258):
        jobs.append(('late%d' % r, job_late, dict(rounds=r)))
    for (i, (V, p)) in enumerate(two_party(rng)):
        jobs.append(('prio%d' % i, job_attack, dict(V=V, param=p, n=60 if deep else 4)))
    for (i, (V, p, m)) in enumerate(poplars(rng, (1, 2, 5) + ((9, 33) if deep else ()))):
        jobs.append(('poplar%d' % i, job_attack, dict(V=V, param=p, n=40 if deep else 3, m=m)))
    return jobs


##
# P21
#

class Blob(Toy):
    """Shares and messages are arbitrary byte strings, of which it takes note."""

    def __init__(self, rounds, share, message):
        self.ROUNDS, self.sh, self.msg = rounds, share, message
        self.seen = []

    def verify_init(self, verify_key, ctx, agg_id, agg_param, nonce, public_share, input_share):
        return ('s', self.sh)

    def verifier_shares_to_message(self, ctx, agg_param, verifier_shares):
        return self.msg

    def verify_next(self, ctx, verify_state, verifier_message):
        return b'out' if self.ROUNDS == 1 or verify_state == 't' else ('t', self.sh)

    def decode_verifier_share(self, verify_state, encoded):
        self.seen.append(J(encoded))
        return encoded

    def decode_verifier_message(self, verify_state, encoded):
        self.seen.append(J(encoded))
        return encoded


class PPBlob(Blob, pp.PingPong):
    pass


A = (b'', b'', b'', b'', b'', b'ab')


def framed(rec, share, message):
    """Messages that the parties send, for given contents."""
    cases = []

    def add(t, items, fn):
        cases.append({'type': t, 'items': [J(i) for i in items], 'out': res(fn, J)})
    add(0, [share], lambda: PPBlob(1, share, message).ping_pong_leader_init(*A).outbound)
    add(2, [message], lambda: PPBlob(1, share, message).ping_pong_helper_init(*A, frame(0, b'x')).outbound)
    add(1, [message, share], lambda: PPBlob(2, share, message).ping_pong_helper_init(*A, frame(0, b'x')).outbound)
    rec.add('frame', op='enc', cases=cases)


def via(rec, b):
    """What the parties make of a message, where each kind is legal."""
    for kind in (0, 1, 2):
        v = PPBlob(1 if kind != 1 else 2, b'share', b'msg')
        try:
            if kind == 0:
                s = v.ping_pong_helper_init(*A, b)
            else:
                st = v.ping_pong_leader_init(*A)
                v.seen.clear()
                s = v.ping_pong_leader_continued(b'', b'', st, b)
            adv = type(s) in (pp.Finished, pp.FinishedWithOutbound, pp.Continued)
        except Exception:
            adv = True
            v.seen = [[-1]]
        rec.add('frame', op='via', b=J(b), kind=kind, advanced=adv, seen=v.seen)


def codec(rec, bs):
    if not hasattr(pp, 'decode'):
        return
    cases = []
    for b in bs:
        cases.append({'b': J(b), 'out': res(lambda: pp.decode(b), lambda r: [[int(r[0])]] + [J(x) for x in r[1]])})
    for i in range(0, len(cases), 400):
        rec.add('frame', op='dec', cases=cases[i:i + 400])


def encs(rec, cases):
    if not hasattr(pp, 'encode'):
        return
    rec.add('frame', op='enc', cases=[{'type': t, 'items': [J(i) for i in items], 'out': res(lambda: pp.encode(t, *items), J)} for (t, items) in cases])


ITEMLENS = [0, 1, 2, 3, 4, 5, 7, 8, 31, 32, 100, 127, 128, 255, 256, 257, 511, 512, 1000, 32767, 32768, 65535, 65536, 65537, 70000]


def job_lengths(rec, lens):
    rng = rec.rng
    for (n, m) in lens:
        x, y = rng.randbytes(n), rng.randbytes(m)
        encs(rec, [(0, [x]), (1, [x, y]), (2, [y])])
        framed(rec, x, y)
        for b in (frame(0, x), frame(1, x, y), frame(2, y)):
            codec(rec, [b, b + b'\0', b[:-1]] if len(b) < 3000 else [b])
            if len(b) < 3000 or rng.random() < 0.3:
                via(rec, b)


def job_cuts(rec, n, m):
    """Every truncation and extension; every kind byte; every length byte."""
    rng = rec.rng
    x, y = rng.randbytes(n), rng.randbytes(m)
    for b in (frame(0, x), frame(1, x, y), frame(2, y), frame(0, x, y), frame(2, x, y), frame(1, x), frame(1, x, y, x), frame(0), frame(1), frame(2)):
        vs = [b[:k] for k in range(len(b) + 1)] + [b + rng.randbytes(k) for k in (1, 2, 4, 5, n + 4)]
        vs += [bytes([t]) + b[1:] for t in range(256)]
        for at in (1, 2, 3, 4, 5 + n, 6 + n, 7 + n, 8 + n):
            if at < len(b):
                # items of 16 MB are never present
                for d in (-2, -1, 1, 2, 128):
                    c = bytearray(b)
                    c[at] = (c[at] + d) % 256
                    vs.append(bytes(c))
        codec(rec, vs)
        for v in rng.sample(vs, min(len(vs), 25)):
            via(rec, v)


def runs(b):
    return [[x, len(list(g))] for (x, g) in itertools.groupby(b)]


class PPRuns(PPBlob):
    def decode_verifier_share(self, verify_state, encoded):
        self.seen.append(runs(encoded))
        return encoded

    def decode_verifier_message(self, verify_state, encoded):
        self.seen.append(runs(encoded))
        return encoded


def job_long(rec, n, m):
    """Items of n and m bytes."""
    rng = rec.rng

    def item(k):
        return rng.randbytes(min(k, 3)) + bytes(max(0, k - 6)) + rng.randbytes(min(max(k - 3, 0), 3))
    x, y = item(n), item(m)
    assert (len(x), len(y)) == (n, m)
    both = [(0, [x]), (1, [x, y]), (2, [x])]
    if hasattr(pp, 'encode'):
        for (t, items) in both:
            rec.add('frame', op='enclong', type=t, items=[runs(i) for i in items], out=res(lambda: pp.encode(t, *items), runs))
    for (t, items, fn) in ((0, [x], lambda: PPRuns(1, x, y).ping_pong_leader_init(*A).outbound),
                           (2, [x], lambda: PPRuns(1, y, x).ping_pong_helper_init(*A, frame(0, b'x')).outbound),
                           (1, [x, y], lambda: PPRuns(2, y, x).ping_pong_helper_init(*A, frame(0, b'x')).outbound)):
        rec.add('frame', op='enclong', type=t, items=[runs(i) for i in items], out=res(fn, runs))
    for (t, items) in both:
        b = frame(t, *items)
        cases = [b, b[:-1], b + b'\0', b[:1] + bytes([b[1] ^ 1]) + b[2:], b[:4] + bytes([b[4] ^ 1]) + b[5:], b[:2] + bytes([b[2] ^ 128]) + b[3:]]
        for c in cases:
            if hasattr(pp, 'decode'):
                rec.add('frame', op='declong', b=runs(c), out=res(lambda: pp.decode(c), lambda r: [[int(r[0])]] + [runs(i) for i in r[1]]))
        for c in cases[:3]:
            v = PPRuns(1 if t != 1 else 2, b'share', b'msg')
            try:
                if t == 0:
                    s = v.ping_pong_helper_init(*A, c)
                else:
                    st = v.ping_pong_leader_init(*A)
                    v.seen.clear()
                    s = v.ping_pong_leader_continued(b'', b'', st, c)
                adv = type(s) in (pp.Finished, pp.FinishedWithOutbound, pp.Continued)
            except Exception:
                adv = True
                v.seen = [[[-1, 1]]]
            rec.add('frame', op='vialong', b=runs(c), kind=t, advanced=adv, seen=v.seen)


def job_strings(rec, strings):
    codec(rec, strings)


def jobs_p21(tier, rng):
    deep = tier == 'thorough'
    jobs = []
    pairs = [(n, rng.choice(ITEMLENS)) for n in ITEMLENS] + [(rng.choice(ITEMLENS), n) for n in ITEMLENS]
    pairs = [(n, m) if deep or n + m < 3000 or min(n, m) < 10 else (n, 3) if n > m else (3, m) for (n, m) in pairs]
    for (i, q) in enumerate(pairs):
        jobs.append(('lens%d' % i, job_lengths, dict(lens=[q])))
    for (i, (n, m)) in enumerate([(0, 0), (1, 0), (0, 1), (2, 3), (5, 4), (17, 16), (255, 256), (256, 1)]):
        jobs.append(('cuts%d' % i, job_cuts, dict(n=n, m=m)))
    for (n, m) in ((70000, 2**20), (2**16 - 1, 2**16), (2**24 - 1, 3), (2**24, 0), (2**24 + 3, 1), (3, 2**24), (0, 2**24 + 256), (2**25 + 5, 70)):
        jobs.append(('long%d-%d' % (n, m), job_long, dict(n=n, m=m)))
    short = [bytes(x) for k in (0, 1, 2) for x in itertools.product(range(256), repeat=k)]
    if not deep:
        short = short[:257] + rng.sample(short[257:], 6000)
    al = (0, 1, 2, 3, 5, 255)
    more = [bytes((t, 0, 0, 0) + x) for t in (0, 1, 2, 3) for k in (0, 1, 2, 3, 4, 5) for x in itertools.product(al, repeat=k)]
    more += [bytes((1, 0, 0, 0, n) + tuple(range(n)) + (0, 0, 0) + x) for n in (0, 1, 2) for k in (0, 1, 2, 3) for x in itertools.product(al, repeat=k)]
    if not deep:
        more = rng.sample(more, 8000)
    both = short + more
    for i in range(0, len(both), 2000):
        jobs.append(('strings%d' % i, job_strings, dict(strings=both[i:i + 2000])))
    return jobs
