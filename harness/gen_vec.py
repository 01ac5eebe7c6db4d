"""Test vectors: P28."""

import contextlib
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile

import core
from core import J, els, res
from cat3 import *
from gen_alg import le
from gen_pop import rbits, some_prefixes

VECTORS = os.path.join(core.REPO, 'test_vec')


def h(x):
    return bytes.fromhex(x)


def instance(name, v):
    """V of a vector, by the name of its file."""
    n = v['shares']
    if name.startswith('Poplar1'):
        return poplar1(v['bits'])
    kind = name.split('_')[0]
    return {
        'Prio3Count': lambda: prio3(n, circ('Count', 'F64')),
        'Prio3Sum': lambda: prio3(n, circ('Sum', 'F64', mx=v['max_measurement'])),
        'Prio3SumVec': lambda: prio3(n, circ('SumVec', 'F128', v['length'], v['chunk_length'], v['max_measurement'])),
        'Prio3SumVecWithMultiproof': lambda: prio3(n, circ('SumVec', 'F64', v['length'], v['chunk_length'], v['max_measurement']), 3),
        'Prio3Histogram': lambda: prio3(n, circ('Histogram', 'F128', v['length'], v['chunk_length'])),
        'Prio3MultihotCountVec': lambda: prio3(n, circ('Multihot', 'F128', v['length'], v['chunk_length'], v['max_weight'])),
        'Prio3HigherDegree': lambda: prio3(n, circ('Poly', 'F64', 1, poly=(0, 2, -3, 1)), generic=True),
    }[kind]()


def measurement(V, m):
    if V['kind'] == 'prio3' and V['circuit']['name'] == 'Poly' and isinstance(m, int):
        return [m]
    return tuple(m) if V['kind'] == 'poplar1' else m


class Replay:
    """The operations a vector lists, as recorded calls.  The results are the
    vector's own, or those of the code given the vector's inputs."""

    def __init__(self, rec, V, v, code):
        self.rec, self.V, self.v, self.code = rec, V, v, code
        rec.extra['Vs'] = [V]
        self.inst = make(V) if code else None
        self.n = 0
        self.handles = {}
        self.states = {}

    def out(self, success, vector, call, conv=lambda x: x):
        if self.code:
            return res(call, conv)
        return {'ok': True, 'val': vector()} if success else {'ok': False, 'err': 'listed as failing'}

    def hold(self, key, box):
        self.n += 1
        self.handles[key] = self.n
        self.states[key] = box[0] if box else None

    def run(self):
        v, V, inst = self.v, self.V, self.inst
        ctx, key = h(v['ctx']), h(v['verify_key'])
        param = h(v['agg_param'])
        add = self.rec.add
        for o in v['operations']:
            op, ok = o['operation'], o['success']
            r = o.get('report_index')
            R = v['reports'][r] if r is not None else None
            a = o.get('aggregator_id')
            if op == 'shard':
                m = measurement(V, R['measurement'])

                def call():
                    (p, i) = inst.shard(ctx, m, h(R['nonce']), h(R['rand']))
                    return {'public': J(inst.encode_public_share(p)), 'inputs': [J(inst.encode_input_share(x)) for x in i]}
                add('vdaf', op='shard', v=1, ctx=J(ctx), m=jmeas(V, m), nonce=J(h(R['nonce'])), rand=J(h(R['rand'])),
                    out=self.out(ok, lambda: {'public': J(h(R['public_share'])), 'inputs': [J(h(x)) for x in R['input_shares']]}, call))
            elif op == 'verify_init':
                box = []

                def call():
                    (s, sh) = inst.verify_init(key, ctx, a, inst.decode_agg_param(param), h(R['nonce']),
                                               inst.decode_public_share(h(R['public_share'])),
                                               inst.decode_input_share(a, h(R['input_shares'][a])))
                    box.append(s)
                    return J(inst.encode_verifier_share(sh))
                out = self.out(ok, lambda: J(h(R['verifier_shares'][0][a])), call)
                self.hold((r, a, 0), box)
                add('vdaf', op='init', v=1, key=J(key), ctx=J(ctx), id=a, param=J(param), nonce=J(h(R['nonce'])),
                    public=J(h(R['public_share'])), input=J(h(R['input_shares'][a])), out=out)
            elif op == 'verifier_shares_to_message':
                q = o['round']
                shares = [h(x) for x in R['verifier_shares'][q]]
                k = (r, 0, q)

                def call():
                    return J(inst.encode_verifier_message(inst.verifier_shares_to_message(
                        ctx, inst.decode_agg_param(param), [inst.decode_verifier_share(self.states[k], s) for s in shares])))
                add('vdaf', op='combine', v=1, ctx=J(ctx), param=J(param), h=self.handles[k], shares=[J(s) for s in shares],
                    out=self.out(ok, lambda: J(h(R['verifier_messages'][q])), call))
            elif op == 'verify_next':
                q = o['round']
                k = (r, a, q - 1)
                msg = h(R['verifier_messages'][q - 1])
                box = []
                rounds = 2 if V['kind'] == 'poplar1' else 1

                def call():
                    x = inst.verify_next(ctx, self.states[k], inst.decode_verifier_message(self.states[k], msg))
                    if isinstance(x, tuple):
                        box.append(x[0])
                        return {'more': True, 'data': J(inst.encode_verifier_share(x[1]))}
                    return {'more': False, 'data': J(inst.encode_out_share(x))}

                def listed():
                    if q < rounds:
                        return {'more': True, 'data': J(h(R['verifier_shares'][q][a]))}
                    return {'more': False, 'data': J(h(R['out_shares'][a]))}
                out = self.out(ok, listed, call)
                self.hold((r, a, q), box)
                add('vdaf', op='next', v=1, ctx=J(ctx), h=self.handles[k], msg=J(msg), out=out)
            elif op == 'aggregate':
                outs = [h(x['out_shares'][a]) for x in v['reports']]

                def call():
                    p = inst.decode_agg_param(param)
                    agg = inst.agg_init(p)
                    for x in outs:
                        agg = inst.agg_update(p, agg, inst.decode_out_share(p, x))
                    return J(inst.encode_agg_share(agg))
                add('vdaf', op='merge', v=1, param=J(param), aggs=[J(x) for x in outs], out=self.out(ok, lambda: J(h(v['agg_shares'][a])), call))
            elif op == 'unshard':
                aggs = [h(x) for x in v['agg_shares']]

                def call():
                    p = inst.decode_agg_param(param)
                    return inst.unshard(p, [inst.decode_agg_share(p, x) for x in aggs], len(v['reports']))
                add('vdaf', op='unshard', v=1, param=J(param), aggs=[J(x) for x in aggs], num=len(v['reports']),
                    out=self.out(ok, lambda: jresult(V, v['agg_result']), call, lambda x: jresult(V, x)))
            else:
                add('crash', err='unknown operation in a vector: %s' % op)


def load(name):
    with open(os.path.join(VECTORS, name + '.json')) as f:
        return json.load(f)


def job_vdaf(rec, name, code):
    v = load('vdaf/' + name)
    Replay(rec, instance(name, v), v, code).run()


def job_idpf(rec, code):
    v = load('IdpfBBCGGI21_0')
    bits = v['bits']
    rec.extra['I'] = {'bits': bits, 'vl': len(v['beta_leaf'])}
    betas = [[le(int(x), 8) for x in b] for b in v['beta_inner']] + [[le(int(x), 32) for x in v['beta_leaf']]]
    rand = h(v['keys'][0]) + h(v['keys'][1])
    if code:
        from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
        i = IdpfBBCGGI21(len(v['beta_leaf']), bits)

        def call():
            (p, k) = i.gen(tuple(v['alpha']), [[i.field_inner(int(x)) for x in b] for b in v['beta_inner']],
                           [i.field_leaf(int(x)) for x in v['beta_leaf']], h(v['ctx']), h(v['nonce']), rand)
            return {'public': J(i.encode_public_share(p)), 'keys': [J(x) for x in k]}
        out = res(call)
    else:
        out = {'ok': True, 'val': {'public': J(h(v['public_share'])), 'keys': [J(h(x)) for x in v['keys']]}}
    rec.add('idpf', op='gen', alpha=[int(b) for b in v['alpha']], betas=betas, ctx=J(h(v['ctx'])), nonce=J(h(v['nonce'])), rand=J(rand), out=out)


def job_xof(rec, name, code):
    from vdaf_poc import xof
    v = load(name)
    X = getattr(xof, name)
    a = (h(v['seed']), h(v['dst']), h(v['binder']))
    common = dict(kind={'XofTurboShake128': 'turbo', 'XofFixedKeyAes128': 'aes'}[name], seed=J(a[0]), dst=J(a[1]), binder=J(a[2]))
    F = FIELDS['F128']
    vec = h(v['expanded_vec_field128'])
    rec.add('xof', op='x.derive', out=res(lambda: X.derive_seed(*a), J) if code else {'ok': True, 'val': J(h(v['derived_seed']))}, **common)
    rec.add('xof', op='x.expand', field='F128', n=v['length'],
            out=res(lambda: X.expand_into_vec(F, *a, v['length']), lambda x: els(x, 16)) if code
            else {'ok': True, 'val': [J(vec[i:i + 16]) for i in range(0, len(vec), 16)]}, **common)


def job_regenerate(rec):
    """The generator reproduces the published files."""
    d = tempfile.mkdtemp(prefix='vdafvec-')
    try:
        env = dict(os.environ, TEST_VECTOR_PATH=d, PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, 'gen_test_vec.py'], cwd=os.path.join(core.REPO, 'poc'), env=env,
                           capture_output=True, text=True, timeout=200)
        rec.add('same', what='exit code of the generator of vectors', a=p.returncode, b=0)
        for root in ('', 'vdaf'):
            names = sorted(x for x in os.listdir(os.path.join(VECTORS, root)) if x.endswith('.json'))
            for x in names:
                path = os.path.join(d, root, x)
                got = json.load(open(path)) if os.path.exists(path) else None
                rec.add('same', what='regenerated ' + x, a=text(got), b=text(load(os.path.join(root, x)[:-5])))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def text(x):
    return json.dumps(x, sort_keys=True)


def job_generate(rec, V, n, param=None, ctx=b'some application', files=False, ms=None):
    """gen_test_vec_for_vdaf on other instances."""
    from vdaf_poc.test_utils import gen_test_vec_for_vdaf
    rng = rec.rng
    inst = make(V)
    if not hasattr(inst, 'test_vec_name') or inst.test_vec_name is None:
        inst.test_vec_name = 'Generated'
    ms = ms or [rmeas(rng, V) for _ in range(n)]
    d = tempfile.mkdtemp(prefix='vdafvec-')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            v = gen_test_vec_for_vdaf(d, inst, param, ctx, ms, 7, files)
        got = sorted(os.listdir(d))
        if files:
            rec.add('same', what='files written', a=got, b=['%s_7.json' % inst.test_vec_name])
            rec.add('same', what='contents of the file written', a=text(json.load(open(os.path.join(d, got[0])))) if got else '', b=text(v))
        else:
            rec.add('same', what='files written', a=len(got), b=0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ops = [[o['operation'], o.get('report_index', -1), o.get('aggregator_id', -1), o.get('round', -1)] for o in v['operations']]
    shape = [[len(r['input_shares']), len(r['verifier_shares']), min(map(len, r['verifier_shares'])), len(r['verifier_messages']),
              len(r['out_shares'])] for r in v['reports']]
    c = V.get('circuit')
    params, want = [v['shares']], [shares_of(V)]
    if V['kind'] == 'poplar1':
        params.append(v['bits'])
        want.append(V['bits'])
    else:
        for (k, x) in {'Sum': (('max_measurement', cmax(c)),),
                       'SumVec': (('max_measurement', cmax(c)), ('length', c['length']), ('chunk_length', c['chunk'])),
                       'Histogram': (('length', c['length']), ('chunk_length', c['chunk'])),
                       'Multihot': (('max_weight', cmax(c)), ('length', c['length']), ('chunk_length', c['chunk']))}.get(c['name'], ()):
            if V['cls'] != 'generic':
                params.append(str(v.get(k)))
                want.append(str(x))
    want = text(want)
    params = text(params)
    rec.add('vecshape', n=shares_of(V), rounds=2 if V['kind'] == 'poplar1' else 1, reports=len(ms), ops=ops,
            success=[o['success'] for o in v['operations']], params=params, want=want, shape=shape)
    rec.add('same', what='measurements of the record', a=text([r['measurement'] for r in v['reports']]), b=text(ms))
    rec.add('same', what='context and aggregation parameter of the record', a=[v['ctx'], v['agg_param']],
            b=[ctx.hex(), inst.encode_agg_param(param).hex()])
    for r in v['reports']:
        rec.add('same', what='sizes of nonce and randomness', a=[len(h(r['nonce'])), len(h(r['rand']))], b=[16, rand_size(V)])
    rec.add('same', what='size of the key', a=len(h(v['verify_key'])), b=key_size(V))
    # the record, replayed into the specification and into the code
    v = json.loads(json.dumps(v))
    Replay(rec, V, v, False).run()
    R = Replay(rec, V, v, True)
    R.n = len([e for e in rec.ev if e['k'] == 'vdaf' and e['op'] in ('init', 'next')])
    R.run()


def jobs_p28(tier, rng):
    deep = tier == 'thorough'
    jobs = []
    for x in sorted(os.listdir(os.path.join(VECTORS, 'vdaf'))):
        for code in (False, True):
            jobs.append(('%s-%s' % (x[:-5], 'code' if code else 'spec'), job_vdaf, dict(name=x[:-5], code=code)))
    for code in (False, True):
        jobs.append(('idpf-%d' % code, job_idpf, dict(code=code)))
        for x in ('XofTurboShake128', 'XofFixedKeyAes128'):
            jobs.append(('%s-%d' % (x, code), job_xof, dict(name=x, code=code)))
    jobs.append(('regenerate', job_regenerate, {}))
    # the generator on other instances
    vs = [prio3(s, c) for c in SMALLC for s in ((2, 3, 4) if deep else (rng.choice((2, 3, 4)),))]
    vs += multi(rng)[:: (1 if deep else 2)]
    vs += [prio3(2, circ('Poly', 'F64', 2, poly=(0, 2, -3, 1)), generic=True)]
    for (k, V) in enumerate(vs):
        jobs.append(('gen-%d' % k, job_generate, dict(V=V, n=rng.randint(1, 3), ctx=rng.randbytes(rng.choice((0, 3, 16, 40))), files=k % 3 == 0)))
    for bits in (1, 2, 3, 7, 8, 9, 12):
        for level in sorted({0, bits // 2, bits - 1}):
            m = rbits(rng, bits)
            ps = tuple(sorted(some_prefixes(rng, bits, level, rng.randint(1, 4), m)))
            jobs.append(('genpop-%d-%d' % (bits, level), job_generate, dict(V=poplar1(bits), n=rng.randint(1, 3), param=(level, ps), files=level == 0)))
    return jobs
