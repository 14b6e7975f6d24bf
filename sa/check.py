"""Decide one property on the current source tree.

  python3 -m sa.check <property> [--tier quick|thorough]

exit 0: no violated obligation; 1: VIOLATION; 2: the tree cannot be analysed
(it does not compile, or an entry point the property is about is gone)."""
import sys
import os
import time
import json
import signal
import hashlib
import importlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import ir                                   # noqa: E402
from sa.ir import Inconclusive, BrokenTree          # noqa: E402

# property -> analyses (module, class)
TABLE = {}


def reg(cls, *props):
    for p in props:
        TABLE.setdefault(p, []).append(cls)


reg(('spec_verify', 'VerifySpec'), 'V01', 'V02', 'V03', 'V07', 'V08', 'V09', 'V10', 'V11')
reg(('spec_policy', 'TimeSpec'), 'V04')
reg(('spec_policy', 'AudienceSpec'), 'V05')
reg(('spec_policy', 'ComposeSpec'), 'V06')
reg(('spec_parse', 'ParseSpec'), 'T01', 'T02', 'T03', 'T04')
reg(('spec_parse', 'LookupSpec'), 'T05', 'T03')
reg(('spec_import', 'JsonImport'), 'K01', 'K02', 'K03', 'K05', 'K07', 'V08', 'V09')
reg(('spec_import', 'PemImport'), 'K01', 'K03', 'K04', 'K07', 'V08', 'V09')
reg(('spec_import', 'ParseCrash'), 'K07')
reg(('spec_import', 'LookupCrash'), 'K07')
reg(('spec_import', 'StatusSpec'), 'K06')
reg(('spec_cache', 'CacheSpec'), 'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08')

TRUSTED = ['clang 18 front end and debug information (-O1, no optimisation passes)', 'tools/irdump.cc (IR export)',
           'sa/interp.py, sa/state.py, sa/lin.py (abstract domain and fixpoint engine)',
           'sa/models.py (summaries of the C++ library, abseil, protobuf and BoringSSL functions)']
ASSUME = ['memory allocation does not fail', 'a container holds fewer than 2^62 bytes',
          'the modelled library functions behave as their documentation says']


class Timeout(Exception):
    pass


def known(prop):
    """Findings recorded for this property: violations that are reported but
    do not fail the check."""
    r = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                r.append(l.split(' ', 2)[2])
    return r


def ident(v):
    return '%s: %s' % (v['function'], v['what'])


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    t0 = time.time()
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': 0, 'violations': 0}
    specs, trouble, broken = [], [], None
    limit = int(os.environ.get('SA_LIMIT', '780' if tier == 'quick' else '3000'))

    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    progs = {}
    try:
        for mod, cls in TABLE[prop]:
            C = getattr(importlib.import_module('sa.' + mod), cls)
            d = tuple(getattr(C, 'drivers', ()))
            if d not in progs:
                progs[d] = ir.load_repo([os.path.join(HERE, x) for x in d])
            S = C(progs[d], only={prop})
            S.tier = tier
            specs.append(S)
            try:
                S.analyse()
            except Inconclusive as e:
                trouble.append('%s: %s' % (S.entry, e))
            if S.viol and tier == 'quick':
                break
    except BrokenTree as e:
        broken = str(e)
    except Timeout:
        trouble.append('time limit of %d s' % limit)
    signal.alarm(0)

    viol, notes, oblig, disch = {}, {}, {}, {}
    fns, calls, stats = set(), set(), {}
    for S in specs:
        viol.update({k: v for k, v in S.viol.items() if k[0] == prop})
        notes.update({k: v for k, v in S.notes.items() if k[0] == prop})
        for k, n in S.oblig.items():
            if k[0] == prop:
                oblig[k[1]] = oblig.get(k[1], 0) + n
        for k, n in S.disch.items():
            if k[0] == prop:
                disch[k[1]] = disch.get(k[1], 0) + n
        fns |= S.sites.get('functions', set())
        calls |= S.sites.get('calls', set())
        stats.update(S.stats)
        if not broken and not viol and hasattr(S, 'expected'):
            for kind, n in S.expected.get(prop, {}).items():
                if oblig.get(kind, 0) < n and not trouble and not notes:
                    w = 'the rule "%s" matched %d places, expected at least %d' % (kind, oblig.get(kind, 0), n)
                    if sum(oblig.values()) == 0:
                        broken = w
                    else:
                        trouble.append(w)
    kf = known(prop)
    real = {k: v for k, v in viol.items() if ident(v) not in kf}
    P = next(iter(progs.values()), None)
    names = sorted({P.fns[f].short for f in fns}) if P else []
    tot, dis = sum(oblig.values()), sum(disch.values())
    ev['coverage'] = {
        'obligations': tot, 'discharged': min(dis, tot - len(notes)) if notes else dis,
        'checker_cmd': 'python3 -m sa.check %s' % prop, 'trusted_base': TRUSTED,
        'obligations_by_rule': {k: [disch.get(k, 0), oblig[k]] for k in sorted(oblig)},
        'functions_analysed': names, 'call_sites_followed': len(calls), 'entry_points': stats,
        'rule': (specs[0].rule if specs and hasattr(specs[0], 'rule') else ''),
        'undecided': [dict(function=str(v.get('function', k[1])), where=str(v.get('where', k[2] if len(k) > 2 else '')), what=v.get('what'),
                           because=v.get('imprecision')) for k, v in notes.items()][:40],
        'inconclusive': trouble}
    ev['assumptions'] = ASSUME + (list(specs[0].assumptions) if specs and hasattr(specs[0], 'assumptions') else [])
    ev['violations'] = len(real)
    ev['wall_s'] = round(time.time() - t0, 2)
    evd = os.environ.get('SA_EVID') or os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k, v in viol.items():
        if ident(v) in kf:
            print('KNOWN-FINDING: property=%s %s' % (prop, ident(v)))
    if real:
        os.makedirs(os.path.join(HERE, 'reports'), exist_ok=True)
        for k, v in sorted(real.items(), key=lambda x: len(x[1]['path'])):
            h = hashlib.sha1(repr(k).encode()).hexdigest()[:10]
            p = os.path.join(HERE, 'reports', '%s-%s.json' % (prop, h))
            with open(p, 'w') as f:
                json.dump(v, f, indent=1)
                f.write('\n')
            print('%s %s (%s): %s' % (prop, v['where'], v['function'], v['what']))
            for l in v['path'][-25:]:
                print('    ' + l[:200])
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if broken:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, broken))
        return 2
    for t in trouble:
        print('INCONCLUSIVE property=%s %s' % (prop, t))
    for k, v in list(notes.items())[:10]:
        print('UNDECIDED property=%s %s: %s (depends on %s)' % (prop, ' '.join(map(str, k[1:3])), v.get('what'), v.get('imprecision')))
    print('%s: %d obligations, %d discharged, %d functions, %.1f s' % (prop, tot, dis, len(names), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
