"""Admission of aggregation parameters (P17) and aggregation (P18)."""

import itertools

import core
from cat3 import *
from gen_pop import lfield, rbits


##
# P17
#

def pparam(d):
    return (d['level'], tuple(tuple(bool(b) for b in p) for p in d['prefixes']))


def offers(rec, V, inst, prev, params):
    rec.add('agg', op='offers', v=1, prev=[jparam(V, p) for p in prev],
            offers=[{'param': jparam(V, p), 'how': how, 'out': res(lambda: inst.is_valid(p, list(prev)), bool)} for (how, p) in params])


def job_histories(rec, bits, width, hists):
    V = poplar1(bits)
    rec.extra['Vs'] = [V]
    inst = make(V)
    every = [('any', (lv, ps)) for lv in range(bits) for k in range(width + 1)
             for ps in itertools.product(itertools.product((False, True), repeat=lv + 1), repeat=k)]
    for h in hists:
        offers(rec, V, inst, [pparam(d) for d in h], every)


def extend(rng, p, level):
    return p + rbits(rng, level + 1 - len(p))


def below(rng, last, level, n):
    """Sorted distinct prefixes of the level that extend those of last."""
    out = set()
    for _ in range(3 * n):
        if len(out) < n:
            out.add(extend(rng, rng.choice(last[1]), level))
    return tuple(sorted(out))


def job_walk(rec, bits, walks, n):
    """Random histories, offered parameters that are nearly admissible."""
    V = poplar1(bits)
    rec.extra['Vs'] = [V]
    inst = make(V)
    rng = rec.rng
    for _ in range(walks):
        prev = []
        level = -1
        while level < bits - 1:
            gap = rng.choice((1, 1, 2, 3, 5, 8, 9, bits // 3 + 1))
            level = min(bits - 1, level + gap)
            if prev:
                ps = below(rng, prev[-1], level, rng.randint(1, n))
            else:
                ps = tuple(sorted({rbits(rng, level + 1) for _ in range(rng.randint(1, n))}))
            offers(rec, V, inst, prev, list(variants(rng, bits, prev, (level, ps))))
            prev.append((level, ps))
        offers(rec, V, inst, prev, list(variants(rng, bits, prev, prev[-1])))


def variants(rng, bits, prev, p):
    (level, ps) = p
    yield ('good', p)
    yield ('reversed', (level, ps[::-1]))
    k = rng.randrange(len(ps))
    yield ('repeated', (level, ps[:k + 1] + ps[k:]))
    yield ('repeated later', (level, ps + ps[:1]))
    if len(ps) > 1:
        i = rng.randrange(len(ps) - 1)
        q = list(ps)
        q[i], q[i + 1] = q[i + 1], q[i]
        yield ('swapped', (level, tuple(q)))
        yield ('last two swapped', (level, ps[:-2] + (ps[-1], ps[-2])))
        yield ('first two swapped', (level, (ps[1], ps[0]) + ps[2:]))
    yield ('none', (level, ()))
    for lv in {0, level - 1, level + 1, level // 2} | {q[0] for q in prev}:
        if 0 <= lv < bits:
            yield ('other level', (lv, tuple(sorted({extend(rng, x[:lv + 1], lv) for x in ps}))))
    for q in prev[-3:]:
        yield ('accepted before', q)
    # one prefix that leaves the earlier ones, at every place
    for b in sorted({0, level, rng.randint(0, level)} | {q[0] for q in prev[-2:]}):
        x = ps[rng.randrange(len(ps))]
        y = x[:b] + (not x[b],) + x[b + 1:]
        yield ('stray prefix', (level, tuple(sorted(set(ps) | {y}))))
        yield ('only a stray prefix', (level, (y,)))
    if len(prev) > 1:
        # extends an older parameter only
        old = rng.choice(prev[:-1])
        yield ('extends an older one', (level, below(rng, old, level, 3)) if old[0] <= level else p)


def job_wide(rec, bits, level, n):
    """Many prefixes: one of them out of order, repeated or astray, near
    powers of two."""
    V = poplar1(bits)
    rec.extra['Vs'] = [V]
    inst = make(V)
    rng = rec.rng
    top = level // 2
    every = sorted({rbits(rng, level + 1) for _ in range(3 * n)})
    ps = tuple(sorted(rng.sample(every, min(n, len(every)))))
    n = len(ps)
    last = (top, tuple(sorted({p[:top + 1] for p in ps})))
    outs = [('good', (level, ps)), ('reversed', (level, ps[::-1]))]
    for k in borders(n):
        if k + 1 < n:
            q = list(ps)
            q[k], q[k + 1] = q[k + 1], q[k]
            outs.append(('swapped at %d' % k, (level, tuple(q))))
        outs.append(('repeated at %d' % k, (level, ps[:k + 1] + ps[k:])))
        x = ps[k]
        y = x[:-1] + (not x[-1],)
        if y not in ps:
            outs.append(('another at %d' % k, (level, tuple(sorted(set(ps) - {x} | {y})))))
    offers(rec, V, inst, [], outs)
    offers(rec, V, inst, [last], outs)
    # one parent missing
    for k in borders(len(last[1])):
        offers(rec, V, inst, [(top, last[1][:k] + last[1][k + 1:])], outs[:1])
    # a long history, of which only the last counts
    hist = [(lv, tuple(sorted({p[:lv + 1] for p in ps}))) for lv in range(level)]
    offers(rec, V, inst, hist, outs[:6])
    offers(rec, V, inst, hist + [(level, ps[:1])], outs[:6])


def job_once(rec, Cs):
    """Prio3: one aggregation only."""
    Vs = [prio3(2, c) for c in Cs]
    rec.extra['Vs'] = Vs
    for (i, V) in enumerate(Vs):
        inst = make(V)
        for prev in ([], [None], [None, None], [None] * 5):
            rec.add('agg', op='offers', v=i + 1, prev=[jparam(V, None)] * len(prev),
                    offers=[{'param': jparam(V, None), 'how': 'after %d' % len(prev), 'out': res(lambda: inst.is_valid(None, list(prev)), bool)}])


def jobs_p17(tier, rng, models):
    deep = tier == 'thorough'
    jobs = [('once', job_once, dict(Cs=SMALLC))]
    for (bits, width, hists) in models:
        hists = sorted(hists, key=str)
        if not deep and len(hists) > 700:
            hists = rng.sample(hists, 700)
        for i in range(0, len(hists), 40):
            jobs.append(('hist%d.%d.%d' % (bits, width, i), job_histories, dict(bits=bits, width=width, hists=hists[i:i + 40])))
    for (bits, level, n) in ((12, 10, 70), (12, 11, 140), (16, 15, 300), (40, 30, 257), (300, 280, 66)) + (((24, 20, 1100),) if deep else ()):
        jobs.append(('wide%d-%d' % (bits, n), job_wide, dict(bits=bits, level=level, n=n)))
    for bits in (1, 2, 3, 4, 5, 8, 9, 16, 31, 64, 65, 128, 256, 257, 300) + ((1000,) if deep else ()):
        jobs.append(('walk%d' % bits, job_walk, dict(bits=bits, walks=(30 if deep else 4) if bits < 100 else 2, n=6 if bits < 100 else 4)))
    return jobs


##
# P18
#

class Aggs:
    def __init__(self, rec, V, param=None):
        self.rec, self.V, self.param = rec, V, param
        rec.extra.setdefault('Vs', []).append(V)
        self.v = len(rec.extra['Vs'])
        self.inst = make(V)
        self.F = V['circuit']['field'] if V['kind'] == 'prio3' else lfield(V['bits'], param[0])
        self.n = len(self.inst.agg_init(param))

    def out(self, n=None):
        """A random output share."""
        rng = self.rec.rng
        p = PRIME[self.F][0]
        return [FIELDS[self.F](rng.choice((0, 1, p - 1, rng.randrange(p), rng.randrange(p)))) for _ in range(self.n if n is None else n)]

    def enc(self, s):
        size = PRIME[self.F][1]
        return [b for x in s for b in el_(x, size)]

    def schedule(self, ops, outs):
        inst, param = self.inst, self.param
        encs = [self.enc(o) for o in outs]
        parts, past, done = {}, {}, []
        for o in ops:
            before = {k: self.enc(v) for (k, v) in parts.items()}

            def call():
                if o['op'] == 'init':
                    return inst.agg_init(param)
                if o['op'] == 'import':
                    return outs[o['args'][0] - 1]
                if o['op'] == 'update':
                    return inst.agg_update(param, parts[o['part']], outs[o['args'][0] - 1])
                return inst.merge(param, [parts[i] for i in o['args']])
            try:
                v = call()
                r = {'ok': True, 'val': self.enc(v)}
            except Exception as e:
                v, r = None, {'ok': False, 'err': type(e).__name__}
            kept = (all(self.enc(x) == before[k] for (k, x) in parts.items()) and [self.enc(x) for x in outs] == encs
                    and all(self.enc(x) == e for (x, e) in past.values()))
            done.append(dict(o, out=r, kept=kept))
            if v is not None:
                if o['part'] in parts:
                    # an updated aggregate stays what it was
                    past[len(done)] = (parts[o['part']], before[o['part']])
                parts[o['part']] = v
        self.rec.add('agg', op='schedule', v=self.v, param=jparam(self.V, self.param), outs=encs, ops=done)

    def unshard(self, aggs, num):
        encs = [self.enc(a) for a in aggs]
        out = res(lambda: self.inst.unshard(self.param, aggs, num), lambda r: jresult(self.V, r))
        self.rec.add('agg', op='unshard', v=self.v, param=jparam(self.V, self.param), aggs=encs, out=out, kept=[self.enc(a) for a in aggs] == encs)


def el_(x, size):
    return core.el(x, size)


def op(name, part, *args):
    return {'op': name, 'part': part, 'args': list(args)}


def instances(rng):
    out = [(prio3(s, c), None) for (s, c) in zip((2, 3, 2, 5, 2, 2, 3, 2, 2, 4, 2), SMALLC)]
    out += [(V, None) for V in multi(rng)]
    for bits in (1, 2, 5, 33):
        for level in sorted({0, bits // 2, bits - 1}):
            for n in (1, 3, 0):
                ps = tuple(sorted({rbits(rng, level + 1) for _ in range(n)}))
                out.append((poplar1(bits), (level, ps)))
    return out


def job_schedules(rec, insts, scheds, reports):
    A = [Aggs(rec, V, p) for (V, p) in insts]
    for (i, s) in enumerate(scheds):
        a = A[i % len(A)]
        a.schedule(s, [a.out() for _ in range(reports)])


def job_misc(rec, V, param, big):
    a = Aggs(rec, V, param)
    rng = rec.rng
    n = a.n
    outs = [a.out() for _ in range(big)]
    # a large batch, cut in pieces that are merged in random order
    ops, live, left = [], [], list(range(1, big + 1))
    rng.shuffle(left)
    made = 0
    while left or len(live) > 1:
        r = rng.random()
        if not live or (r < 0.15 and left):
            made += 1
            ops.append(op('init', made))
            live.append(made)
        elif left and r < 0.8:
            ops.append(op('update', rng.choice(live), left.pop()))
        else:
            k = rng.randint(0 if left else 2, min(len(live), 6)) if left else rng.randint(min(2, len(live)), min(len(live), 6))
            s = rng.sample(live, k)
            made += 1
            ops.append(op('merge', made, *s))
            live = [x for x in live if x not in s] + [made]
    a.schedule(ops, outs)
    # whole batch in the given order and reversed
    a.schedule([op('init', 1)] + [op('update', 1, i) for i in range(1, big + 1)], outs)
    a.schedule([op('init', 1)] + [op('update', 1, i) for i in range(big, 0, -1)], outs)
    # the same aggregate used twice
    a.schedule([op('init', 1), op('update', 1, 1), op('merge', 2, 1, 1), op('merge', 3, 2, 1, 2), op('update', 3, 1)], outs[:1])
    # shares of other lengths
    for m in {n + 1, n - 1, 0, 2 * n}:
        if m >= 0 and m != n:
            odd = a.out(m)
            a.schedule([op('init', 1), op('update', 1, 1), op('update', 1, 2)], [odd, a.out()])
            a.schedule([op('init', 1), op('update', 1, 2), op('import', 2, 1), op('merge', 3, 1, 2)], [odd, a.out()])
            a.schedule([op('import', 1, 1), op('init', 2), op('merge', 3, 1, 2), op('merge', 3, 1)], [odd])
            a.unshard([odd] + [a.out() for _ in range(shares_of(V) - 1)], 3)
            a.unshard([a.out() for _ in range(shares_of(V) - 1)] + [odd], 3)
    # unsharding
    k = shares_of(V)
    aggs = [a.out() for _ in range(k)]
    for _ in range(3):
        rng.shuffle(aggs)
        a.unshard(list(aggs), rng.choice((1, 2, 77, 255, 256, 257, 1000, 65536, 10**6, 2**31, 2**32, 2**40)))
    a.unshard([a.inst.agg_init(param) for _ in range(k)], 1)
    s = a.out()
    a.unshard([s] * k, 2)


def job_merge(rec, V, param, n):
    """Many aggregates merged at once, and many updates of one."""
    a = Aggs(rec, V, param)
    outs = [a.out() for _ in range(n)]
    a.schedule([op('import', i, i) for i in range(1, n + 1)] + [op('merge', n + 1, *range(1, n + 1)), op('merge', n + 2, *range(n, 0, -1))], outs)
    a.schedule([op('init', 1)] + [op('update', 1, i) for i in range(1, n + 1)], outs)


def jobs_p18(tier, rng, models):
    deep = tier == 'thorough'
    jobs = []
    insts = instances(rng)
    for (reports, tag, scheds) in models:
        scheds = sorted(scheds, key=str)
        limit = 100000 if deep else 4000
        if len(scheds) > limit:
            scheds = rng.sample(scheds, limit)
        for i in range(0, len(scheds), 400):
            jobs.append(('sched%s.%d' % (tag, i), job_schedules, dict(insts=rng.sample(insts, 12), scheds=scheds[i:i + 400], reports=reports)))
    ps = tuple(sorted({rbits(rng, 10) for _ in range(300)}))
    for (i, (V, p)) in enumerate([(prio3(2, circ('Sum', 'F64', mx=9)), None), (poplar1(3), (1, ((False, True), (True, True)))), (prio3(2, circ('SumVec', 'F64', 2, 2, 3), 2), None)]):
        for n in (129, 257, 300) if not deep else (1030,):
            jobs.append(('merge%d-%d' % (i, n), job_merge, dict(V=V, param=p, n=n)))
    for (i, (V, p)) in enumerate([(prio3(2, LARGE[k]), None) for k in (3, 8, 9, 12)] + [(poplar1(10), (9, ps)), (poplar1(11), (9, ps))]):
        jobs.append(('large%d' % i, job_misc, dict(V=V, param=p, big=5)))
    for (i, (V, p)) in enumerate(insts + [(prio3(255, circ('Count', 'F64')), None), (prio3(2, circ('SumVec', 'F128', 50, 10, 1)), None)]):
        jobs.append(('misc%d' % i, job_misc, dict(V=V, param=p, big=rng.choice((7, 20, 60)))))
    return jobs
