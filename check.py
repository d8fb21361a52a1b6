#!/usr/bin/env python3
"""Runs one static check: check.py <property id> [quick|thorough]."""
import sys, os, json, time, importlib, re, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
sys.dont_write_bytecode = True


class Report:
    """Obligations of one property. Every obligation has a stable key (no line numbers) naming the construct."""

    def __init__(self, P, prop, tier):
        self.P, self.prop, self.tier = P, prop, tier
        self.obs = {}           # key -> (ok, where, message)
        self.analysed = {}      # free counters
        self.floors = []
        self.notes = []
        self.assumptions = []

    def ob(self, key, where, ok, msg=''):
        old = self.obs.get(key)
        if old is None or (old[0] and not ok):
            self.obs[key] = (bool(ok), where, msg)

    def bad(self, key, where, msg):
        self.ob(key, where, False, msg)

    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def floor(self, what, n, least):
        """A rule that found fewer instances than confirmed by hand on the original tree has lost its anchors."""
        self.floors.append((what, n, least))


def load_known():
    known = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) :: (.*)', line.strip())
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    mod = importlib.import_module(prop.lower())
    import model
    P = model.Program()
    R = Report(P, prop, tier)
    mod.run(P, R)
    known = load_known()
    viol, found = [], []
    for key, (ok, where, msg) in sorted(R.obs.items()):
        if ok:
            continue
        if (prop, key) in known:
            found.append((key, where, msg))
        else:
            viol.append((key, where, msg))
    lost = [f for f in R.floors if f[1] < f[2]]
    for key, where, msg in found:
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (prop, where, key, msg))
    stale = [k for (p, k) in known if p == prop and k not in [f[0] for f in found]]
    for k in stale:
        print('note: known finding no longer present: %s' % k)
    rule = ' '.join((mod.__doc__ or '').split())
    samples = [{'obligation': k, 'at': v[1], 'holds': v[0]} for k, v in list(sorted(R.obs.items()))[::max(1, len(R.obs) // 12)]][:14]
    cov = {'explanation': 'Static analysis of the sources under /repo as compiled by the project\'s own build commands; nothing was executed. Rule: ' + rule,
           'rule': rule,
           'obligations': len(R.obs), 'discharged': sum(1 for v in R.obs.values() if v[0]),
           'known_findings': len(found),
           'functions_in_program': len(P.fns), 'classes_in_program': len(P.cls), 'translation_units': len(P.units),
           'samples': samples}
    cov.update(R.analysed)
    if R.notes:
        cov['notes'] = R.notes[:80]
    for what, n, least in R.floors:
        cov.setdefault('instances', {})[what] = {'found': n, 'least_expected': least}
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': getattr(mod, 'LEVEL', 'other'),
          'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + R.assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d known findings, %d violations (%.1f s)' % (
        prop, len(R.obs), cov['discharged'], len(found), len(viol), time.time() - t0))
    if viol:
        rp = os.path.join(ROOT, 'reports')
        os.makedirs(rp, exist_ok=True)
        rp = os.path.join(rp, prop + '.txt')
        with open(rp, 'w') as f:
            f.write('Rule: %s\n\n' % rule)
            for key, where, msg in viol:
                f.write('%s [%s]\n    %s\n' % (where, key, msg))
        for key, where, msg in viol[:40]:
            print('  %s [%s] %s' % (where, key, msg))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if lost:
        for what, n, least in lost:
            print('analysis lost its anchors: %s: %d found, at least %d expected' % (what, n, least))
        return 2
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
