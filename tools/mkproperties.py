#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkproperties.py)."""
import json, os

PRIO3 = 'poc/vdaf_poc/vdaf_prio3.py'
FLP = 'poc/vdaf_poc/flp_bbcggi19.py'
FLPI = 'poc/vdaf_poc/flp.py'
FIELD = 'poc/vdaf_poc/field.py'
XOF = 'poc/vdaf_poc/xof.py'
IDPF = 'poc/vdaf_poc/idpf_bbcggi21.py'
POP = 'poc/vdaf_poc/vdaf_poplar1.py'
PP = 'poc/vdaf_poc/vdaf_ping_pong.py'
VDAF = 'poc/vdaf_poc/vdaf.py'
DAF = 'poc/vdaf_poc/daf.py'
COMMON = 'poc/vdaf_poc/common.py'

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


prop('P01', 'Honest Prio3 batches are accepted and aggregate to the exact result',
     'For every Prio3 variant (count, sum, vector sum, histogram, multihot count, multiproof vector sum), every permitted parameter choice and number of Aggregators, every honestly generated report passes verification at every Aggregator. The unsharded aggregate of any batch equals the plain aggregation function of its measurements: the number of ones, the sum, the element-wise sum, the per-bucket counts.',
     ['inputs', 'configurations', 'histories'],
     'all variants x parameters (lengths, bounds that are and are not powers of two, chunk lengths dividing or exceeding the input length, 2..255 shares, 1..255 proofs) x measurement batches x nonces, keys, contexts and randomness',
     'The tests run a handful of batches at fixed small parameters with 2 or 3 shares; the statement covers all parameters, share counts, boundary measurements and batch compositions.',
     [PRIO3, FLP, VDAF], [('sharding, verification, unsharding', PRIO3 + ' Prio3.shard/verify_init/verifier_shares_to_message/verify_next/unshard'), ('circuits', FLP + ' Count/Sum/SumVec/Histogram/MultihotCountVec')],
     ['public calls of the VDAF from sharding to unsharding', 'driver for a whole VDAF execution'])

prop('P02', 'Invalid or tampered Prio3 reports never yield an output share',
     'When a client shards something that is not the encoding of a permitted measurement, or when an input share, the public share as seen by all Aggregators, a verifier share or a verifier message is altered, or verifier shares are missing or surplus, verification of that report fails before any Aggregator that depends on the altered value obtains an output share. Only the soundness error of the proof system (a negligible, exactly predictable set of challenges) is exempt, and the failure of one report does not disturb the verification of others.',
     ['inputs', 'fault_sequences', 'configurations'],
     'every variant and share count x every component of every message x alterations (bit flips, swaps between Aggregators, replays from other reports, zeroing, out-of-range encodings, wrong counts) x invalid measurement vectors',
     'The tests alter a few fixed components of two vectors; robustness must hold for each component, each position, each number of shares and proofs and each kind of alteration.',
     [PRIO3, FLP], [('decision', PRIO3 + ' Prio3.verifier_shares_to_message'), ('joint randomness check', PRIO3 + ' Prio3.verify_next'), ('input share decoding and expansion', PRIO3 + ' decode_*')],
     ['outcome (output share or error) of each verification step'])

prop('P03', 'Prio3 messages are exactly the bytes the specification prescribes',
     'For every variant, parameters and inputs, the public share, input shares, verifier shares, verifier message, output shares and aggregate shares of Prio3 are byte for byte the values prescribed by the specification from the measurement, nonce, randomness, key, application context and aggregator index. Two implementations that follow the specification therefore interoperate.',
     ['inputs', 'configurations'],
     'all variants, parameters, share and proof counts, contexts of any permitted length, nonces, keys and randomness',
     'Published vectors fix a dozen points with fixed parameters, context and counting-sequence randomness; wire compatibility is needed everywhere.',
     [PRIO3, FLP, XOF], [('share derivation', PRIO3 + ' shard_with(out)_joint_rand, helper_*_share'), ('query and joint randomness', PRIO3 + ' query_rands, joint_rand_*')],
     ['encoded return values of shard, verification and aggregation calls'])

prop('P04', 'Joint randomness binds every share and is agreed by all Aggregators',
     'In variants with joint randomness, the seed each Aggregator derives, the seed in the verifier message and the seed the client used all agree for an honest report. The seed depends on the context and, through each Aggregator\'s contribution, on that Aggregator\'s index, blind, measurement share and the nonce, so that Aggregators holding a share, blind or nonce other than the ones the client committed to reach a mismatch and reject, even if the proof itself would verify.',
     ['inputs', 'fault_sequences'],
     'all joint-randomness variants, 2..255 Aggregators, alterations of each Aggregator\'s part, blind, share, nonce, index and context, at each Aggregator separately',
     'Tests never exercise disagreement of joint randomness except one negative vector with two shares.',
     [PRIO3], [('joint randomness part/seed', PRIO3 + ' joint_rand_part/joint_rand_seed/joint_rands'), ('confirmation', PRIO3 + ' verify_next')],
     ['verifier shares, verifier message and verify_next outcome'])

prop('P05', 'Validity circuits accept exactly the encodings of permitted measurements',
     'For each measurement type, the validity check evaluates to zero for all values of the joint randomness exactly when the input vector is one that encodes a permitted measurement (bits in range, one-hot, weight at most the maximum and equal to the claimed weight), for every number of shares the input may be split into. Evaluation is the affine/multiplicative function fixed by the specification, so evaluating shares and summing equals evaluating the whole when gadget outputs are shared too.',
     ['inputs', 'configurations'],
     'all field vectors of the input length (exhaustively over small fields), all joint randomness values, all lengths, bounds and chunk lengths, numbers of shares',
     'Tests evaluate a few valid and a few invalid vectors per type at one parameter choice.',
     [FLP], [('circuits', FLP + ' Count/Histogram/MultihotCountVec/SumVec/Sum .eval')],
     ['return value of circuit evaluation'])

prop('P06', 'Proof system: honest proofs always verify, for any splitting into shares',
     'A proof generated for a valid input is accepted for all prover, joint and query randomness, except that a query point that is a root of unity of the wire domain is refused with an error. Querying is linear: for any additive splitting of input and proof into any number of shares the verifier shares sum to the verifier of the whole, and lengths of proof, verifier and randomness are those declared. A whole run of the proof system by its driver splits the input and its proof into independent shares, queries all shares with the same joint and query randomness, and returns the decision on the sum of the verifier shares.',
     ['inputs', 'configurations'],
     'all circuits and gadgets (multiplication, polynomial evaluation of any degree, parallel sums), numbers of gadget calls, fields, randomness and share splittings',
     'Tests draw a few random runs on fixed circuits; they cannot cover wire-domain boundaries, degrees and shares counts.',
     [FLP, FLPI], [('prover', FLP + ' ProveGadget/FlpBBCGGI19.prove'), ('query', FLP + ' QueryGadget/FlpBBCGGI19.query'), ('decision', FLP + ' FlpBBCGGI19.decide'), ('driver', FLPI + ' run_flp')],
     ['return values of prove, query, decide and of the proof-system driver'])

prop('P07', 'Proof system: invalid inputs and altered proofs are rejected',
     'For an input outside the language, or a proof or verifier altered in any position, the decision is acceptance only for the query challenges at which the specified polynomial identities coincidentally hold (at most the degree bound); in particular a non-zero circuit output or any gadget check that does not match is always rejected. Every gadget of the circuit takes part in the decision.',
     ['inputs', 'fault_sequences'],
     'all positions of proof, input and verifier, all alterations over small fields with all query points, random ones over the real fields',
     'Tests alter nothing inside proofs except two positions of one variant; a verifier that skipped one wire, one gadget or one output element would pass them.',
     [FLP], [('query', FLP + ' FlpBBCGGI19.query'), ('decision', FLP + ' FlpBBCGGI19.decide')],
     ['return values of query and decide'])

prop('P08', 'Measurements encode and decode faithfully; impossible ones are refused',
     'Encoding any permitted measurement and truncating it yields field elements that, summed over a batch and decoded, give the exact aggregate; a bounded integer is encoded by zeros and ones whose weighted sum is the integer, for every bound including those that are not a power of two minus one. Measurements outside the permitted range or of the wrong length (negative, too large, index out of range, too many set entries) are refused with an error and never silently encoded as something else.',
     ['inputs', 'configurations'],
     'all bounds and all values per bound (exhaustive for small bounds, boundary values for bounds up to the field size), all lengths and indices, in and out of range',
     'Tests check a few values and bounds; the encoding has a special last weight that depends on the bound.',
     [FLP], [('range-checked integers', FLP + ' encode_range_checked_int/decode_range_checked_int'), ('encode/truncate/decode', FLP + ' Valid subclasses')],
     ['return values or errors of encode, truncate, decode'])

prop('P09', 'Field arithmetic is exact and field encodings are canonical',
     'Addition, subtraction, negation, multiplication, division, inversion and exponentiation of every supported field are arithmetic modulo its prime on all elements, vector operations are element-wise and refuse unequal lengths. Encoding a vector is fixed-width little-endian and decoding is its exact inverse: every byte string of the right width below the modulus decodes to one element and every other byte string is refused. Likewise an integer is encoded in a given number of bytes exactly or not at all.',
     ['inputs'],
     'all pairs of elements (boundary-biased for the large fields, exhaustive for small ones), all byte strings around the modulus, all lengths',
     'Tests sample a few random elements and never the non-canonical encodings of each field.',
     [FIELD, COMMON], [('arithmetic and codec', FIELD + ' Field'), ('vector helpers', COMMON + ' vec_add/vec_sub/vec_neg')],
     ['results and errors of arithmetic and of vector encoding'])

prop('P10', 'Polynomial transforms agree with evaluation and interpolation',
     'The number-theoretic transform, its inverse and its coset form, evaluation, multiplication, doubling and extension in the evaluation basis, and evaluation, multiplication, addition and interpolation in the coefficient basis all agree with the mathematical definition (value of the unique polynomial at the given points) for every polynomial, size and point, including the zero polynomial and points of the domain. Inputs are not modified except where documented.',
     ['inputs'],
     'all sizes that are powers of two up to the bound, all polynomials (exhaustive for small fields and sizes), all evaluation points including domain points, all partial lengths for extension',
     'Tests take random polynomials of a few sizes; zero, short, constant polynomials and domain points are not reached.',
     [FIELD], [('NTT', FIELD + ' NttField.ntt/inv_ntt'), ('Lagrange basis', FIELD + ' Lagrange'), ('monomial basis', FIELD + ' poly_*')],
     ['results of the polynomial operations'])

prop('P11', 'XOF output is the prescribed stream, independent of how it is read',
     'Each extendable output function yields the byte stream the specification defines for its seed, tag and binder; reading it in chunks of any sizes yields the same stream as reading it at once, and seeds or tags of impermissible length are refused. Field vectors are obtained from the stream by masking and rejection sampling, so every element is in range, no accepted sample is skipped, repeated or reduced, and a longer vector extends a shorter one. The exclusive-or that the derivations and the IDPF combine seeds with is exact, and refuses strings of different lengths.',
     ['inputs', 'histories'],
     'all seeds, tags of length 0..65535, binders, sequences of read sizes (crossing block boundaries), fields, vector lengths including draws that must be rejected',
     'Tests read one or two lengths from one seed; rejection sampling is exercised on a single hard-coded input and chunked reads barely.',
     [XOF], [('streams', XOF + ' XofTurboShake128/XofFixedKeyAes128'), ('derivation', XOF + ' derive_seed/next_vec/expand_into_vec')],
     ['returned bytes and field vectors'])

prop('P12', 'Verification is bound to context, key, nonce, algorithm and role',
     'All derived randomness is separated by version, algorithm class, algorithm identifier, usage, application context, and where relevant nonce, aggregator index, number of proofs and tree level, with unambiguous framing. If client and Aggregators, or two Aggregators, use different application contexts, nonces, verification keys or aggregator indices, or shares are processed by a different algorithm variant, verification fails rather than yielding an output.',
     ['inputs', 'fault_sequences', 'configurations'],
     'every VDAF variant, every pair of differing contexts (empty, prefix of one another, long), nonces, keys, indices, algorithm identifiers; every usage of derived randomness',
     'Tests run with one fixed context and always in agreement, so a derivation that drops one of these inputs passes them unless it changes a published vector.',
     [PRIO3, POP, IDPF, COMMON, VDAF], [('tags', COMMON + ' format_dst'), ('tags', VDAF + ' domain_separation_tag'), ('binders', PRIO3 + ' / ' + POP)],
     ['verification outcome under disagreement', 'derived values'])

prop('P13', 'IDPF shares sum to the programmed value on the path and zero elsewhere',
     'For every input string, level and set of distinct prefixes of that level, the two parties\' evaluations of each prefix sum to the value programmed for that level if the prefix is a prefix of the input, and to zero otherwise, in the order the prefixes were given. This holds for all lengths of strings and values, contexts and nonces; an out-of-range party or level, a repeated prefix or a prefix of the wrong length is refused.',
     ['inputs', 'configurations'],
     'all strings and prefixes (exhaustive for short strings), all levels, lengths 1..300 including byte boundaries, value lengths, orders and subsets of prefixes, contexts and nonces',
     'Tests are exhaustive only for one-bit strings and otherwise probe one path; off-path behaviour after divergence at each level is not covered.',
     [IDPF], [('generation', IDPF + ' gen'), ('evaluation', IDPF + ' eval/eval_next/extend/convert')],
     ['sum of the two evaluation results', 'errors'])

prop('P14', 'Poplar1 and IDPF messages are exactly the bytes the specification prescribes',
     'For every string length, input, aggregation parameter, nonce, randomness, key and context, the public share, keys, input shares, verifier shares and messages of both rounds, output shares and aggregate shares of Poplar1 and its point function are byte for byte those prescribed by the specification.',
     ['inputs', 'configurations'],
     'string lengths 1..300, all levels, prefix sets of any size, contexts of any permitted length, nonces, keys and randomness',
     'The published vectors use short strings, few prefixes and one context.',
     [POP, IDPF, XOF], [('sharding', POP + ' shard'), ('sketch', POP + ' verify_init/verify_next'), ('IDPF', IDPF + ' gen/eval')],
     ['encoded return values of all calls'])

prop('P15', 'Poplar1 counts, for every candidate prefix, the measurements below it',
     'For every string length, batch of measurements and aggregation parameter with distinct candidate prefixes, every honest report is accepted and the aggregate result lists, in the order of the candidate prefixes, the number of measurements in the batch having that prefix. Running a sequence of increasingly deep aggregation parameters over the same reports gives the right counts at every step, so the heavy hitters found are exactly those of the batch.',
     ['inputs', 'histories', 'configurations'],
     'all batches, levels (first, inner, last), prefix sets (empty, single, all, several hundred), string lengths 1..300, sequences of aggregation parameters on the same reports',
     'Tests run a few batches with few prefixes at isolated levels; collecting repeatedly over the same reports is not tested.',
     [POP, IDPF, VDAF], [('verification', POP + ' verify_init/verify_next/verifier_shares_to_message'), ('aggregation', POP + ' agg_*/unshard')],
     ['verification outcomes and aggregate results'])

prop('P16', 'Malformed or tampered Poplar1 reports never yield an output share',
     'If the two parties\' evaluations at the candidate prefixes do not sum to a vector with at most a single one (for example two programmed paths, a value other than one, or a wrong authenticator), or any field of a public share, input share, verifier share or verifier message that the evaluation depends on is altered, exchanged or sent in the wrong round, verification fails and no output share results. Only the negligible, exactly predictable set of verification challenges of the sketch is exempt.',
     ['inputs', 'fault_sequences'],
     'alterations of every component at every level, programmed values other than one, swapped parties, replays across rounds and reports, wrong numbers of shares, all levels and prefix sets containing the deviation',
     'No test covers a malformed Poplar1 report except one negative vector.',
     [POP], [('sketch', POP + ' verify_next/verifier_shares_to_message')],
     ['outcome of each verification step'])

prop('P17', 'Aggregation parameters are admitted only in a privacy-preserving order',
     'Prio3 admits one aggregation per report. Poplar1 admits an aggregation parameter exactly when its candidate prefixes are distinct and in lexicographic order and, if others were accepted before, its level is strictly deeper than the last accepted one and each prefix extends one of the last accepted prefixes; hence no sequence of accepted parameters ever uses a level twice.',
     ['histories', 'inputs'],
     'all histories of parameters over short strings (exhaustive to a bound), longer random histories, all orders, duplicates, gaps of several levels',
     'Tests try about ten fixed pairs of parameters.',
     [POP, PRIO3], [('validity', POP + ' is_valid/get_ancestor'), ('validity', PRIO3 + ' is_valid')],
     ['returned admission decision'])

prop('P18', 'Aggregation is independent of order, grouping and interleaving',
     'For Prio3 and Poplar1, any way of splitting a batch among partial aggregate shares, any order of updates, and any tree or order of merges (including empty partial aggregates) gives the same aggregate share and result, and an empty batch gives the all-zero aggregate. Shares of different lengths are refused, and updating or merging leaves its operands unchanged.',
     ['schedules', 'histories', 'inputs'],
     'all interleavings of updates and merges over small batches (exhaustive to a bound) and random larger ones, all variants and levels',
     'Tests always update in one order and never merge partial aggregates.',
     [PRIO3, POP], [('aggregation', PRIO3 + ' agg_init/agg_update/merge/unshard'), ('aggregation', POP + ' agg_init/agg_update/merge/unshard')],
     ['aggregate shares and results'])

prop('P19', 'Two-party exchanges complete with both parties agreeing',
     'For every two-party VDAF and number of rounds, an honest exchange alternates between initiator and responder and ends, after the number of requests fixed by the number of rounds, with both parties finished and each holding the same output share as direct execution; each party applies the shares in the order leader then helper and every message carries the right kind for its round. A report that fails verification leaves at least the detecting party rejected and never both finished. Exchanges under way at the same time on one instance, with different contexts, aggregation parameters, nonces and keys, do not affect each other.',
     ['schedules', 'inputs', 'configurations'],
     'round counts 1..255 with synthetic VDAFs, several exchanges in turns on one instance, every Prio3 variant and Poplar1 at every level, valid and invalid reports, all contexts and keys',
     'Tests run only a synthetic VDAF with honest messages; the real VDAFs are never run over this exchange.',
     [PP], [('exchange', PP + ' ping_pong_*')],
     ['returned states, outbound messages and output shares'])

prop('P20', 'Adversarial or misordered exchange messages lead to rejection, never to harm',
     'Whatever bytes a party receives at any point of a two-party exchange (garbled, truncated, of the wrong kind, replayed, early, late, from another report, or malformed stored inputs), the call returns a state and never raises; it advances only for the one well-formed message kind legal in its round whose contents verify, and otherwise becomes rejected. A party outputs a share only when its own last round has verified, and terminal states cannot be advanced.',
     ['schedules', 'fault_sequences', 'histories'],
     'all sequences of adversarial deliveries to both parties up to a bound for several round counts, byte-level corruptions of every message, malformed initial inputs, every state type',
     'Tests contain no adversarial message at all.',
     [PP], [('exchange', PP + ' ping_pong_*'), ('framing', PP + ' encode/decode')],
     ['returned states for every delivered message'])

prop('P21', 'Exchange message framing is exact and unambiguous',
     'Framing of the initialize, continue and finish messages is the prescribed one: a kind byte followed by each item with a four-byte big-endian length. Decoding returns exactly the encoded items for every item length and refuses every other byte string: unknown kinds, truncation at any point, surplus bytes, and lengths that do not match.',
     ['inputs'],
     'all kinds, item lengths 0..70000 including the byte boundaries of the length, every truncation and extension point, every kind byte, all byte strings up to a short length',
     'Tests check one example of each kind.',
     [PP], [('framing', PP + ' encode/decode')],
     ['encoded bytes; decoded items or error'])

prop('P22', 'Prio3 codecs are exact inverses with exact lengths and strict decoding',
     'For every Prio3 variant, encoding then decoding any public share, input share, verifier share, verifier message, output share, aggregate share or aggregation parameter gives the value back, encodings have exactly the prescribed length and layout, and decoding accepts nothing but these encodings: too short, too long, or non-canonical input is refused.',
     ['inputs', 'configurations'],
     'all message types, variants, roles, share and proof counts; every truncation, extension and out-of-range element',
     'Tests use codecs only through valid published vectors.',
     [PRIO3, FIELD], [('codecs', PRIO3 + ' encode_*/decode_*')],
     ['encoded bytes; decoded values or error'])

prop('P23', 'Poplar1 codecs are exact inverses with exact lengths and strict decoding',
     'For every string length and level, encoding then decoding any public share, input share, verifier share, verifier message, output share, aggregate share or aggregation parameter gives the value back with exactly the prescribed bit packing, length and layout. Decoding refuses truncated or surplus bytes, non-zero padding bits and out-of-range field elements, and an aggregation parameter whose prefixes do not fit its level is not encoded.',
     ['inputs', 'configurations'],
     'string lengths and levels 0..300 covering each residue modulo 8 and both fields, prefix counts 0..several hundred, every truncation/extension, every padding bit',
     'Tests use a few fixed parameters.',
     [POP, IDPF], [('aggregation parameter', POP + ' encode_agg_param/decode_agg_param'), ('public share', IDPF + ' encode_public_share/decode_public_share/pack_bits/unpack_bits')],
     ['encoded bytes; decoded values or error'])

prop('P24', 'Operations are deterministic and leave their inputs and objects unchanged',
     'Every operation of the VDAFs and their building blocks is a function of its arguments alone: repeating a call, in any order and interleaved with any other calls on the same or other instances, gives the same result, and no call modifies the shares, states, vectors, messages or parameters passed to it. One instance can therefore serve many reports, in any interleaving.',
     ['schedules', 'histories', 'inputs'],
     'all operations of Prio3, Poplar1, the proof system and the point function, under repeated, interleaved and reordered calls for several reports sharing an instance',
     'Tests call each operation once per value and compare results, never arguments.',
     [PRIO3, POP, FLP, IDPF, FIELD], [('all operations', 'poc/vdaf_poc')],
     ['results of repeated calls; arguments before and after each call'])

prop('P25', 'Impermissible parameters and argument sizes are refused',
     'Constructing a VDAF, circuit, gadget or point function with parameters outside their documented ranges (numbers of shares and proofs, lengths, bounds and weights not positive or too large for the field, chunk lengths), or sharding or executing with a nonce, randomness, key or programmed value of the wrong size, is refused with an error; permitted parameters at the limits are accepted and give the declared sizes.',
     ['inputs', 'configurations'],
     'each parameter at and around each limit of its range, for each variant; each sized argument at wrong sizes',
     'Tests check a few out-of-range constructor calls of two circuits.',
     [PRIO3, FLP, POP, IDPF, VDAF], [('constructors', PRIO3 + ' / ' + FLP + ' / ' + IDPF), ('argument checks', 'shard, run_vdaf, gen')],
     ['acceptance or error; declared sizes'])

prop('P26', 'Individual shares are masked by fresh randomness and do not reveal the input',
     'Helper input shares are functions of the randomness alone, and the Leader\'s measurement and proof shares are the encoded values minus pseudorandom masks each drawn once from the Helpers\' independent seeds; distinct shares and uses draw from distinct seeds or streams. For a fixed measurement every proper subset of the shares is thus distributed independently of the measurement, as are point-function keys.',
     ['inputs', 'configurations'],
     'all variants and share counts, pairs of measurements under equal randomness, all seeds positions; exact distribution over small fields',
     'A sharding that reused a seed or leaked the measurement to a share would still aggregate correctly; no test compares shares of different measurements.',
     [PRIO3, POP, IDPF, FLPI], [('sharding', PRIO3 + ' shard_*'), ('sharding', POP + ' shard'), ('secret sharing', FLPI + ' additive_secret_share')],
     ['input shares for chosen measurements and randomness'])

prop('P27', 'Execution drivers run any scheme exactly as the protocol prescribes',
     'The drivers for whole executions of a DAF and of a VDAF, for any scheme, number of Aggregators and number of rounds, call each party\'s operations with exactly that party\'s inputs in protocol order, with a fresh nonce and fresh randomness of the declared sizes per report, combine exactly the current round\'s shares, and return the unsharded aggregate of all reports; a failing step aborts with an error.',
     ['programs', 'inputs', 'configurations'],
     'synthetic schemes with 1..6 Aggregators and 1..6 rounds, batches of 0..6 measurements, failures injected at every step; all real VDAFs',
     'Tests only look at final results of a few schemes; argument mix-ups that cancel out are invisible.',
     [VDAF, DAF], [('drivers', VDAF + ' run_vdaf'), ('drivers', DAF + ' run_daf')],
     ['sequence of calls, arguments and final result'])

prop('P28', 'Published test vectors are reproduced, and generated vectors are faithful',
     'Every published test vector (extendable output functions, point function, and all positive and negative VDAF vectors) is reproduced exactly by the implementation and by the specification. The vector generator emits, for any VDAF instance and measurements, a record whose every field is what the executed operations really produced and whose listed operations succeed or fail as stated.',
     ['inputs', 'programs'],
     'all files of published vectors, all operations in them; generated vectors for many instances, share counts and contexts',
     'Tests replay the VDAF vectors but not those of the output functions and of the point function, nor generated ones.',
     ['test_vec', 'poc/vdaf_poc/test_utils.py', 'poc/gen_test_vec.py'], [('generator', 'poc/vdaf_poc/test_utils.py gen_test_vec_for_vdaf')],
     ['vector files and generated records'])

prop('P29', 'Threshold sharing composes with the proof system',
     'Sharing a vector with threshold t among n parties lets any t or more shares, in any order, recover it exactly, while fewer than t shares are consistent with every value; it is linear, so that the proof system\'s queries on threshold shares recombine to the query on the whole and batches aggregate share-wise.',
     ['inputs', 'configurations'],
     'thresholds 1..n, n up to 7, all subsets and orders of share indices, all vectors over small fields, real circuits',
     'The example tries three pairs of shares of one vector (and is outside the test suite).',
     ['poc/example_flp_shamir.py', FIELD], [('sharing', 'poc/example_flp_shamir.py shamir_shard/shamir_unshard'), ('interpolation', FIELD + ' poly_interp')],
     ['recovered vectors and decisions'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
