"""Writes MANIFEST.json from the claimed properties and properties.jsonl."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]

ENGINE = ('interprocedural path-sensitive abstract interpretation of the compiler IR, to a fixpoint, with obligations '
          'on the abstract states; ')
SHAPE = ('shape analysis of every cache operation from an arbitrary state that satisfies the invariants (any number of entries, '
         'deferred lists of any length; list segments, lazily found table entries, affine hulls at loop headers): ')
CLAIMS = {
    'V01': 'typestate of the verification primitive and term equality of the signed bytes',
    'V02': 'obligations on digest, padding, curve and length facts at the accepting primitive',
    'V03': 'loop sweep summary (set of keys skipped/tried) against the eligibility predicate',
    'V04': 'linear-inequality domain: exit facts entail the exact skewed comparison',
    'V05': 'loop sweep summary over the audience lists and string terms against the normal form',
    'V06': 'composition of callee results with exact time facts at every exit',
    'V07': 'taint of MAC bytes plus equality obligations on the accepting path',
    'V08': 'interval and difference bounds of pointers and lengths at every primitive and memory access',
    'V09': 'ownership typestate of crypto objects on all paths',
    'V10': 'typestate of the error queue',
    'T01': 'ordering of the returned status against the path facts about parts, base64, JSON and alg; index and access bounds',
    'T02': 'term equality of every field with its own source; claim kinds and ranges from the path facts',
    'T03': 'floating point intervals at every conversion to an integer',
    'T04': 'dependence of each field on the former content of the object; aliasing of the argument with its own fields',
    'T05': 'ghost walk along the dotted name, compared with result and output at every exit',
    'K01': 'loop sweep summary over the keys array (entries skipped, refused, imported) against the status and the keys at every exit',
    'K02': 'path facts at every import and refusal of an entry against the acceptance table',
    'K03': 'term equality of every field of an added key with the members of its own entry',
    'K04': 'contents of the key vector before and after, and path facts about the PEM type, at every exit',
    'K05': 'loop sweep summary over the members of the map against the path facts at every exit',
    'K06': 'evaluation of the message table per enumerator; transfer function of the status recorder',
    'K07': 'null, bounds and assertion obligations at every dereference, index and cut',
    'C01': SHAPE + 'destruction and deferral of every element against its pins',
    'C02': SHAPE + 'linear equality of the counters with the sums over live, pinned and deferred elements',
    'C03': SHAPE + 'table contents, pins and results against the contract of the operation',
    'C04': SHAPE + 'limit or no evictable entry at the exits; order and occasion of every eviction',
    'C05': SHAPE + 'well-formedness and completeness of the recency list',
    'C06': SHAPE + 'time stamps and list positions before and after, sortedness as the inductive invariant',
    'C07': SHAPE + 'order facts between clock, stamp and limit at removals and at results of lookups; floating point regions of the limit',
    'C08': SHAPE + 'event order of scoped lookups; unchanged state after queries; compile-fail witness for copies',
    'V11': 'effect analysis: stores and calls that reach shared or static state',
}
CNOTE = ('Every operation is shown to keep the invariants and to meet its contract from every state that satisfies them, so the '
         'property holds after every history. Violations are reported only from states reached with a bounded number of loop '
         'iterations and no approximation; the folded states prove the rest or leave it undecided.')
NOTES = {'C0%d' % i: CNOTE for i in range(1, 9)}
NA = {
    'N01': 'functional correctness of BoringSSL, abseil and protobuf code outside /repo; the analysis takes their documented behaviour as given',
    'N02': 'existential over signatures made by cryptographic arithmetic: no static argument in reach decides that a genuine signature verifies',
    'N03': 'an amortised resource bound over containers and cryptographic work of the libraries; no sound static bound in reach',
    'N04': 'a property of generated machine code and processor timing, not of the source (V07 decides the source-level half)',
}
TODO = 'the analysis of this part is not built yet'
exec(open(HERE + '/tools/claims.py').read()) if os.path.exists(HERE + '/tools/claims.py') else None
m = {'version': 1,
     'setup_cmd': "python3 -c 'from sa import ir; ir.tool()'",
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in CLAIMS:
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3 -m sa.check %s' % i,
            'thorough_cmd': 'python3 -m sa.check %s --tier thorough' % i,
            'technique': ('' if i[0] == 'C' else ENGINE) + CLAIMS[i], 'level': 'proof',
            'level_note': NOTES.get(i, 'All obligations over the fixpoint of every path of the entry points, under the library '
                                       'models listed as trusted; a path the models cannot follow is reported as undecided, not as a violation.')})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, TODO)})
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
open(HERE + '/MANIFEST.json', 'a').write('\n')
