"""What each property's check runs."""

import gen_agg
import gen_alg
import gen_pp
import gen_det
import gen_flp
import gen_codec
import gen_drv
import gen_bind
import gen_mask
import gen_par
import gen_pop
import gen_run
import gen_sss
import gen_vdaf
import gen_vec
from core import printed


TRACES = 'TLA+ specification; TLC validates recorded executions of the code against it'
MODEL = 'TLA+ specification model-checked with TLC; its behaviours are replayed into the code and recorded executions validated against it'


CHECKED = 'TLA+ specification model-checked with TLC in small scope; TLC validates recorded executions of the code against it'


class Prop:
    def __init__(self, run, note, technique=TRACES, level='model_checking', assumptions=()):
        self.run = run
        self.note = note
        self.technique = technique
        self.level = level
        self.assumptions = list(assumptions)


def p09(r):
    r.model('SelfTest', env={'PHASES': 'all' if r.deep else 'slow'})
    r.validate(r.record(gen_alg.jobs_p09(r.tier, r.rng)))


def p10(r):
    sizes = [('F5', 1), ('F5', 2), ('F17', 2)] + ([('F5', 4), ('F13', 2), ('F97', 2)] if r.deep else [])
    r.models([('PolyModel', {'FIELD': f, 'SIZE': str(n)}) for (f, n) in sizes])
    r.validate(r.record(gen_alg.jobs_p10(r.tier, r.rng)))


def reports(r, which):
    """The life of a report over a small field."""
    r.models([('ReportModel', {'WHICH': w, 'SEEDS': '4' if r.deep else '1', 'VALUES': 'all' if r.deep and w in ('count2', 'count3') else 'few'}) for w in which])


def p01(r):
    reports(r, ('count2', 'vec2'))
    r.validate(r.record(gen_run.jobs_p01(r.tier, r.rng)))


def p02(r):
    reports(r, ('count3', 'sum2', 'hist2'))
    r.validate(r.record(gen_run.jobs_p02(r.tier, r.rng)))


def p04(r):
    reports(r, ('hist3',))
    r.models([('JointModel', {'AGGS': str(n), 'VARY': v}) for (n, v) in ((2, 'all'), (3, 'share'), (3, 'ctx')) + (((3, 'nonce'), (3, 'blind')) if r.deep else ())])
    r.validate(r.record(gen_run.jobs_p04(r.tier, r.rng)))


def p13(r):
    cases = ((1, 1, 2), (2, 2, 2), (3, 1, 2)) + (((4, 2, 4), (5, 3, 2), (7, 1, 1)) if r.deep else ())
    r.models([('IdpfModel', {'BITS': str(b), 'VALUES': str(v), 'SEEDS': str(n)}) for (b, v, n) in cases])
    r.validate(r.record(gen_pop.jobs_p13(r.tier, r.rng)))


def p14(r):
    r.validate(r.record(gen_pop.jobs_p14(r.tier, r.rng)))


def p15(r):
    r.models([('SketchModel', {'FIELD': f, 'WIDTH': str(w), 'KEYS': 'all'}) for (f, w) in (('F5', 1),) + ((('F13', 1), ('F5', 2)) if r.deep else ())])
    r.validate(r.record(gen_pop.jobs_p15(r.tier, r.rng)))


def p16(r):
    cases = [('F5', 1, 'all'), ('F5', 2, 'few')] + ([('F5', 2, 'all'), ('F13', 1, 'all'), ('F17', 1, 'few')] if r.deep else [])
    r.models([('SketchModel', {'FIELD': f, 'WIDTH': str(w), 'KEYS': k}) for (f, w, k) in cases])
    r.validate(r.record(gen_pop.jobs_p16(r.tier, r.rng)))


def p12(r):
    r.model('DomainModel')
    r.validate(r.record(gen_bind.jobs_p12(r.tier, r.rng)))


def p22(r):
    r.model('CodecModel', env={'WHICH': 'shares', 'LENGTH': '8' if r.deep else '7'})
    r.validate(r.record(gen_codec.jobs_p22(r.tier, r.rng)))


def p23(r):
    r.model('CodecModel', env={'WHICH': 'param', 'LENGTH': '7' if r.deep else '5'})
    r.validate(r.record(gen_codec.jobs_p23(r.tier, r.rng)))


def p05(r):
    r.model('CircuitModel', env={'DEPTH': 'deep' if r.deep else 'quick'})
    r.validate(r.record(gen_flp.jobs_p05(r.tier, r.rng)))


def p06(r):
    r.model('FlpModel', env={'DEPTH': 'quick'})
    r.validate(r.record(gen_flp.jobs_p06(r.tier, r.rng)))


def p07(r):
    r.model('FlpModel', env={'DEPTH': 'deep' if r.deep else 'quick'})
    r.validate(r.record(gen_flp.jobs_p07(r.tier, r.rng)))


def p08(r):
    r.model('EncodeModel', env={'BOUND': '200' if r.deep else '24'})
    r.validate(r.record(gen_flp.jobs_p08(r.tier, r.rng)))


def p17(r):
    cases = ((1, 2), (2, 3), (3, 2)) + (((4, 2), (3, 3)) if r.deep else ())
    outs = r.models([('ParamModel', {'BITS': str(b), 'WIDTH': str(w)}) for (b, w) in cases])
    r.validate(r.record(gen_agg.jobs_p17(r.tier, r.rng, [(b, w, printed(o, 'hist')) for ((b, w), o) in zip(cases, outs)])))


def p18(r):
    cases = ((1, 3, 2), (2, 2, 2), (3, 2, 2), (2, 3, 2)) + (((3, 3, 2), (2, 2, 3)) if r.deep else ())
    outs = r.models([('SchedModel', {'REPORTS': str(n), 'PARTS': str(p), 'MERGES': str(m)}) for (n, p, m) in cases])
    r.validate(r.record(gen_agg.jobs_p18(r.tier, r.rng, [(c[0], '%d%d%d' % c, printed(o, 'sched')) for (c, o) in zip(cases, outs)])))


def p19(r):
    cases = (1, 2, 3, 7, 12) + ((33, 64, 255) if r.deep else ())
    r.models([('PingPongModel', {'ROUNDS': str(n), 'EVIL': '0'}) for n in cases])
    r.validate(r.record(gen_pp.jobs_p19(r.tier, r.rng)))


def p21(r):
    r.model('CodecModel', env={'WHICH': 'frame', 'LENGTH': '10' if r.deep else '8'})
    r.validate(r.record(gen_pp.jobs_p21(r.tier, r.rng)))


def p20(r):
    cases = ((1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (1, 2), (2, 2)) + (((3, 2), (4, 2), (9, 1)) if r.deep else ())
    outs = r.models([('PingPongModel', {'ROUNDS': str(n), 'EVIL': str(e)}) for (n, e) in cases])
    r.validate(r.record(gen_pp.jobs_p20(r.tier, r.rng, [(n, e, printed(o, 'pp')) for ((n, e), o) in zip(cases, outs)])))


def p27(r):
    cases = [('vdaf', 2, 1, 1), ('vdaf', 2, 2, 2), ('vdaf', 3, 2, 1), ('daf', 2, 1, 2), ('daf', 3, 1, 2)]
    if r.deep:
        cases += [('vdaf', 3, 2, 2), ('vdaf', 2, 3, 2), ('vdaf', 4, 1, 2), ('daf', 3, 1, 3)]
    outs = r.models([('DriverModel', {'KIND': k, 'AGGS': str(n), 'ROUNDS': str(q), 'BATCH': str(b)}) for (k, n, q, b) in cases])
    r.validate(r.record(gen_drv.jobs_p27(r.tier, r.rng, [c + (printed(o, 'fault'),) for (c, o) in zip(cases, outs)])))


def p29(r):
    cases = [('F5', 1, 3), ('F5', 2, 4), ('F5', 3, 3), ('F13', 2, 3)] + ([('F5', 3, 4), ('F5', 4, 4), ('F13', 2, 5), ('F13', 3, 3)] if r.deep else [])
    r.models([('ShamirModel', {'FIELD': f, 'THRESHOLD': str(t), 'SHARES': str(n)}) for (f, t, n) in cases])
    traces = r.record(gen_sss.jobs_p29(r.tier, r.rng, r.known(gen_sss.FINDING)))
    r.validate(traces)
    if gen_sss.found(traces):
        r.finding('shamir_unshard raises IndexError if every share of an element is zero')


def p28(r):
    r.validate(r.record(gen_vec.jobs_p28(r.tier, r.rng)))


def p25(r):
    r.validate(r.record(gen_par.jobs_p25(r.tier, r.rng)))


def p26(r):
    cases = [('F5', 2), ('F5', 3), ('F5', 4), ('F13', 2)] + ([('F13', 3), ('F17', 3), ('F97', 2)] if r.deep else [])
    r.models([('MaskModel', {'FIELD': f, 'SHARES': str(n)}) for (f, n) in cases])
    r.validate(r.record(gen_mask.jobs_p26(r.tier, r.rng)))


def p24(r):
    cases = [(2, 4, 1, 1)] + ([(3, 2, 1, 1), (2, 4, 2, 0)] if r.deep else [])
    outs = r.models([('InterleaveModel', {'REPORTS': str(a), 'PHASES': str(b), 'REPEATS': str(c), 'FAILURES': str(d)}) for (a, b, c, d) in cases])
    scheds = [s for o in outs[:1] for s in printed(o, 'sched')]
    r.validate(r.record(gen_det.jobs_p24(r.tier, r.rng, scheds, 4)))


def p03(r):
    r.validate(r.record(gen_vdaf.jobs_p03(r.tier, r.rng)))


def p11(r):
    for phase in ('turbo', 'aes', 'vectors'):
        r.model('SelfTest', env={'PHASES': phase})
    r.validate(r.record(gen_alg.jobs_p11(r.tier, r.rng)))


PROPS = {
    'P01': Prop(p01, 'the life of a report is model-checked over small fields; sampled instances, batches and Aggregator counts of the code are compared with the plain aggregate', CHECKED),
    'P02': Prop(p02, 'a report altered in any one place is model-checked over small fields; the verdict on each sampled alteration of the code is predicted exactly, soundness error included', CHECKED),
    'P03': Prop(p03, 'every message of sampled executions compared byte for byte with the specification'),
    'P04': Prop(p04, 'agreement is model-checked with hashes as terms, against an adversary who chooses all inputs; sampled reports of the code, altered and exact', CHECKED),
    'P05': Prop(p05, 'all input vectors over small fields, in the specification and in the code; sampled vectors over the real fields', CHECKED),
    'P06': Prop(p06, 'every proof string over the smallest fields in the specification; every test point over small fields in the code; sampled otherwise', CHECKED),
    'P07': Prop(p07, 'every proof string over the smallest fields in the specification; the verdict on each sampled false input or altered proof of the code is predicted exactly', CHECKED),
    'P08': Prop(p08, 'every value for every small bound in the specification; all values for small bounds and boundary values for large ones in the code', CHECKED),
    'P09': Prop(p09, 'exhaustive for small fields, boundary-biased samples for the real ones; the primitives themselves are model-checked against plain TLA+ definitions'),
    'P10': Prop(p10, 'exhaustive for small fields and sizes, boundary-biased samples for the real ones', CHECKED),
    'P11': Prop(p11, 'streams compared with TurboSHAKE128 and AES defined in TLA+; sampled seeds, tags, binders and read schedules'),
    'P12': Prop(p12, 'separation of all derivations is model-checked for contexts and seeds that imitate each other; the outcome of sampled executions with mismatched parties is predicted', CHECKED),
    'P13': Prop(p13, 'all strings and prefixes of short trees in the specification; all of short trees and sampled ones of tall trees in the code', CHECKED),
    'P14': Prop(p14, 'every message of sampled executions compared byte for byte with the specification'),
    'P15': Prop(p15, 'completeness of the sketch is model-checked over small fields; sampled batches, parameters and heavy-hitter runs of the code', CHECKED),
    'P16': Prop(p16, 'soundness of the sketch is model-checked over small fields for every vector; the verdict on each sampled alteration of the code is predicted exactly', CHECKED),
    'P17': Prop(p17, 'all histories of parameters of short trees, generated from the model and replayed; sampled ones of tall trees', MODEL),
    'P18': Prop(p18, 'all schedules of updates and merges of small batches, generated from the model and replayed; sampled large ones', MODEL),
    'P19': Prop(p19, 'honest exchanges of up to 12 rounds (thorough: 255) in the model; of up to 255 in the code', CHECKED),
    'P20': Prop(p20, 'all exchanges with one or two adversarial deliveries, generated from the model and replayed', MODEL),
    'P21': Prop(p21, 'all strings over a small alphabet in the specification; sampled items and strings in the code', CHECKED),
    'P22': Prop(p22, 'all strings over a small alphabet in the specification; sampled values and mutations of each message in the code', CHECKED),
    'P23': Prop(p23, 'all strings over a small alphabet in the specification; sampled values and mutations of each message in the code', CHECKED),
    'P24': Prop(p24, 'all interleavings of two reports with a repeated and a failing step, generated from the model and replayed; sampled pairs of calls', MODEL),
    'P25': Prop(p25, 'boundary values of every parameter and argument size, judged by the specification of what is permitted'),
    'P26': Prop(p26, 'independence is model-checked over small fields; in the code, shares are compared with the masks the randomness prescribes', CHECKED),
    'P27': Prop(p27, 'every fault point of small runs, generated from the model and replayed; the calls of sampled runs are followed step by step', MODEL),
    'P28': Prop(p28, 'all published vectors; sampled generated ones, every field compared with the specification'),
    'P29': Prop(p29, 'all small sharings in the model; sampled sharings in the code', CHECKED),
}
