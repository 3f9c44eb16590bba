#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property on /repo's current working tree."""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('VX_EVIDENCE', os.path.join(HERE, 'evidence'))
sys.path.insert(0, HERE)
from vlib import model  # noqa: E402


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []
        self.cov = {}
        self.assumptions = []
        self.notes = []

    def bad(self, rule, where, msg, fp):
        """fp: stable fingerprint of the construct (no line numbers)"""
        v = {'rule': rule, 'where': where, 'message': msg, 'fingerprint': '%s|%s' % (rule, fp)}
        if v['fingerprint'] not in [x['fingerprint'] for x in self.violations]:
            self.violations.append(v)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, name, s, limit=6):
        l = self.cov.setdefault('samples', {}).setdefault(name, [])
        if len(l) < limit and s not in l:
            l.append(s)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def need(self, n, least, what):
        if n < least:
            raise model.AnalysisError('only %d instances of %s found (at least %d expected): the rule no longer sees the code it is about' % (n, what, least))


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    rep = Report(pid)
    mod = importlib.import_module('rules.' + pid)
    try:
        needs_model = getattr(mod, 'NEEDS_MODEL', True)
        m = model.load() if needs_model else None
        mod.run(m, rep, tier)
    except model.AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    if m is not None:
        rep.cov.setdefault('translation_units', len(m.tus))
        rep.cov.setdefault('functions_in_model', len(m.fns))
    known = {}
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        for e in json.load(open(kf)).get('known', []):
            if e['property'] == pid:
                known[e['fingerprint']] = e
    new = []
    for v in rep.violations:
        if v['fingerprint'] in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[v['fingerprint']]['what']))
        else:
            new.append(v)
    os.makedirs(EVID, exist_ok=True)
    cov = {'explanation': (mod.__doc__ or '').strip(), 'rule': getattr(mod, 'RULE', (mod.__doc__ or '').strip().split('\n')[0])}
    cov.update(rep.cov)
    if rep.notes:
        cov['notes'] = rep.notes
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'other'), 'coverage': cov,
          'assumptions': rep.assumptions + list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write('\n')
    if new:
        rp = os.path.join(EVID, pid + '.violations.json')
        with open(rp, 'w') as f:
            json.dump(new, f, indent=1, ensure_ascii=False)
        for v in new:
            print('%s: [%s] %s' % (v['where'], v['rule'], v['message']))
            if '--fp' in sys.argv:
                print('    fingerprint: ' + v['fingerprint'])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    rp = os.path.join(EVID, pid + '.violations.json')
    if os.path.exists(rp):
        os.unlink(rp)
    print('OK property=%s %s' % (pid, ' '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int))))
    return 0


if __name__ == '__main__':
    sys.exit(main())
